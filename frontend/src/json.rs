pub enum J {
	Null,
	B(bool),
	N(i64),
	S(String),
	A(Vec<J>),
	O(Vec<(String, J)>),
}
fn esc(x: &str, o: &mut String) {
	o.push('"');
	for c in x.chars() {
		match c {
			'"' => o.push_str("\\\""),
			'\\' => o.push_str("\\\\"),
			'\n' => o.push_str("\\n"),
			'\t' => o.push_str("\\t"),
			'\r' => o.push_str("\\r"),
			c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
			c => o.push(c),
		}
	}
	o.push('"');
}
impl J {
	pub fn write(&self, o: &mut String) {
		match self {
			J::Null => o.push_str("null"),
			J::B(b) => o.push_str(if *b { "true" } else { "false" }),
			J::N(n) => o.push_str(&n.to_string()),
			J::S(x) => esc(x, o),
			J::A(v) => {
				o.push('[');
				for (i, x) in v.iter().enumerate() {
					if i > 0 {
						o.push(',');
					}
					x.write(o);
				}
				o.push(']');
			}
			J::O(v) => {
				o.push('{');
				for (i, (k, x)) in v.iter().enumerate() {
					if i > 0 {
						o.push(',');
					}
					esc(k, o);
					o.push(':');
					x.write(o);
				}
				o.push('}');
			}
		}
	}
}
