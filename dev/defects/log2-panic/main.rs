use fixed::types::U32F96;
fn main(){
  let tiny = U32F96::from_bits(1u128<<20);
  println!("pow {:?}", hydra_dx_math::transcendental::pow::<U32F96,U32F96>(tiny, U32F96::from_num(0.5f64)));
  println!("lbp {:?}", hydra_dx_math::lbp::calculate_out_given_in(1, 1_000_000_000_000, 30, 70, 1_000_000_000_000));
}
