"""Constant-product pool formulas."""
from vt.spec import *

M="math::xyk::math::"
S=[
FnSpec(M+"calculate_spot_price",["x","y","a"],{"":Out(lambda e:e.a*e.y/e.x,"down",1)}),
FnSpec(M+"calculate_out_given_in",["x","y","a"],{"":Out(lambda e:e.y*e.a/(e.x+e.a),"down",1)}),
FnSpec(M+"calculate_in_given_out",["y","x","a"],{"":Out(lambda e:e.x*e.a/(e.y-e.a),"up",1)},requires=[("a<y",lambda e:e.y-e.a-1)]),
FnSpec(M+"calculate_liquidity_in",["x","y","a"],{"":Out(lambda e:e.y*e.a/e.x,"up",1)}),
FnSpec(M+"calculate_liquidity_out",["x","y","s","t"],{"0":Out(lambda e:e.s*e.x/e.t,"down",1),"1":Out(lambda e:e.s*e.y/e.t,"down",1)}),
FnSpec(M+"calculate_shares",["x","a","t"],{"":Out(lambda e:e.a*e.t/e.x,"down",1)}),
FnSpec(M+"calculate_spot_price_with_fee",["x","y","fee"],{"":Out(lambda e:e.y/e.x*(1-(opt(e.fee,lambda f:f.f0/f.f1))),"near",3)}),
]


def specs():
    return S
