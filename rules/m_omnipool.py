"""Hub-asset pool formulas."""
from vt.spec import *

M="math::omnipool::math::"
TR=[("Decrease","Increase")]
B=2.0**80
A=["ain","aout","a","af","pf","imb"]
G=lambda e:e.aout.reserve*e.hub_out/(e.aout.hub_reserve+e.hub_out)
S=[
FnSpec(M+"calculate_sell_state_changes",A,{
 "asset_in.delta_shares":Out(lambda e:0,"exact",0),
 "asset_in.delta_protocol_shares":Out(lambda e:0,"exact",0),
 "asset_out.delta_shares":Out(lambda e:0,"exact",0),
 "asset_out.delta_protocol_shares":Out(lambda e:0,"exact",0),
 "asset_in.delta_reserve":Out(lambda e:e.a,"exact",0,"Increase"),
 "asset_in.delta_hub_reserve":Out(lambda e:e.ain.hub_reserve*e.a/(e.ain.reserve+e.a),"down",1,"Decrease",leg="hub_in"),
 "fee.protocol_fee":Out(lambda e:e.pf*e.hub_in,"down",1,leg="pfee"),
 "asset_out.delta_hub_reserve":Out(lambda e:e.hub_in-e.pfee,"exact",0,"Increase",leg="hub_out"),
 "asset_out.delta_reserve":Out(lambda e:(1-e.af)*G(e),"down",2,"Decrease"),
 "fee.asset_fee":Out(lambda e:e.af*G(e),"near",2),
 "delta_imbalance":Out(lambda e:e.min(e.pfee,e.imb),"exact",0,"Increase",leg="dimb"),
 "hdx_hub_amount":Out(lambda e:e.pfee-e.dimb,"exact",0),
 }),
]
L=lambda e: e.ha*(e.q-e.l.value)/(e.q+e.ha)+e.ha
S.append(FnSpec(M+"calculate_sell_hub_state_changes",["aout","ha","af","l","q"],{
 "asset.delta_shares":Out(lambda e:0,"exact",0),
 "asset.delta_protocol_shares":Out(lambda e:0,"exact",0),
 "asset.delta_hub_reserve":Out(lambda e:e.ha,"exact",0,"Increase"),
 "asset.delta_reserve":Out(lambda e:(1-e.af)*e.aout.reserve*e.ha/(e.aout.hub_reserve+e.ha),"down",2,"Decrease"),
 "fee.asset_fee":Out(lambda e:e.af*e.aout.reserve*e.ha/(e.aout.hub_reserve+e.ha),"near",2),
 "delta_imbalance":Out(L,"up",1,"Decrease"),
},mags={"l.value":2.0**79}))
S.append(FnSpec(M+"calculate_fee_amount_for_buy",["f","a"],{"":[
 Out(lambda e:0,"exact",0,when=lambda e,c,st:e.holds(eq(ZERO,tonode_(e.raw("f"))))),
 Out(lambda e:e.a,"exact",0,when=lambda e,c,st:e.holds(eq(const(10**6),tonode_(e.raw("f"))))),
 Out(lambda e:e.a*e.f/(1-e.f),"up",1)]},degenerate=False))
S.append(FnSpec(M+"calculate_buy_for_hub_asset_state_changes",["aout","a","af","l","q"],{
 "asset.delta_shares":Out(lambda e:0,"exact",0),
 "asset.delta_protocol_shares":Out(lambda e:0,"exact",0),
 "asset.delta_reserve":Out(lambda e:e.a,"exact",0,"Decrease"),
 "asset.delta_hub_reserve":Out(lambda e:e.aout.hub_reserve*e.a/(e.aout.reserve*(1-e.af)-e.a),"up",4,"Increase",leg="ha"),
 "fee.asset_fee":Out(lambda e:e.a*e.af/(1-e.af),"up",1),
 "delta_imbalance":Out(L,"up",1,"Decrease"),
},mags={"l.value":2.0**79,"a":2.0**78}))
S.append(FnSpec(M+"calculate_buy_state_changes",A,{
 "asset_in.delta_shares":Out(lambda e:0,"exact",0),
 "asset_in.delta_protocol_shares":Out(lambda e:0,"exact",0),
 "asset_out.delta_shares":Out(lambda e:0,"exact",0),
 "asset_out.delta_protocol_shares":Out(lambda e:0,"exact",0),
 "asset_out.delta_reserve":Out(lambda e:e.a,"exact",0,"Decrease"),
 "asset_out.delta_hub_reserve":Out(lambda e:e.aout.hub_reserve*e.a/(e.aout.reserve*(1-e.af)-e.a),"up",4,"Increase",leg="hub_out"),
 "asset_in.delta_hub_reserve":Out(lambda e:e.hub_out/(1-e.pf),"near",1,"Decrease",leg="hub_in"),
 "asset_in.delta_reserve":Out(lambda e:e.ain.reserve*e.hub_in/(e.ain.hub_reserve-e.hub_in),"up",1,"Increase"),
 "fee.asset_fee":Out(lambda e:e.a*e.af/(1-e.af),"up",1),
 "fee.protocol_fee":Out(lambda e:e.pf*e.hub_in,"down",1,leg="pfee"),
 "delta_imbalance":Out(lambda e:e.min(e.pfee,e.imb),"exact",0,"Increase",leg="dimb"),
 "hdx_hub_amount":Out(lambda e:e.pfee-e.dimb,"exact",0),
},mags={"a":2.0**78},requires=[("hub amount < hub reserve",lambda e:e.ain.hub_reserve-e.hub_in-1)]))
IMB=lambda leg:(lambda e: getattr(e,leg)*e.l.value/e.q)
S.append(FnSpec(M+"calculate_add_liquidity_state_changes",["s","a","l","q"],{
 "asset.delta_protocol_shares":Out(lambda e:0,"exact",0),
 "asset.delta_reserve":Out(lambda e:e.a,"exact",0,"Increase"),
 "asset.delta_hub_reserve":Out(lambda e:e.a*e.s.hub_reserve/e.s.reserve,"down",2e6,"Increase",leg="dq"),
 "asset.delta_shares":Out(lambda e:e.a*e.s.shares/e.s.reserve,"down",1,"Increase"),
 "delta_imbalance":Out(IMB("dq"),"down",1,"Decrease"),
}))
P_=lambda e:e.p.price.f0/e.p.price.f1
C=lambda e:e.s.hub_reserve/e.s.reserve
S.append(FnSpec(M+"calculate_remove_liquidity_state_changes",["s","n","p","l","q","wf"],{
 "asset.delta_protocol_shares":[Out(lambda e:e.n*(P_(e)*e.s.reserve-e.s.hub_reserve)/(P_(e)*e.s.reserve+e.s.hub_reserve),"near",4e6,"Increase",leg="b",last="up",when=lambda e,c,st:e.lt(C(e),P_(e))),
     Out(lambda e:0,"exact",0,"Increase",leg="b")],
 "asset.delta_shares":Out(lambda e:e.n-e.b,"exact",0,"Decrease",leg="ds"),
 "asset.delta_reserve":Out(lambda e:e.max(0,1-e.wf)*e.s.reserve*e.ds/e.s.shares,"down",2,"Decrease"),
 "asset.delta_hub_reserve":Out(lambda e:e.max(0,1-e.wf)*e.s.hub_reserve*e.ds/e.s.shares,"down",3,"Decrease",leg="dq"),
 "delta_position_shares":Out(lambda e:e.n,"exact",0,"Decrease"),
 "delta_position_reserve":Out(lambda e:e.n*e.p.amount/e.p.shares,"down",1,"Decrease"),
 "lp_hub_amount":[Out(lambda e:e.max(0,1-e.wf)*e.s.hub_reserve*(e.s.hub_reserve-P_(e)*e.s.reserve)/(e.s.hub_reserve+P_(e)*e.s.reserve)*e.ds/e.s.shares,"near",1e7,when=lambda e,c,st:e.lt(P_(e),C(e))),
     Out(lambda e:0,"exact",0)],
 "delta_imbalance":Out(IMB("dq"),"down",1,"Increase"),
},mags={"wf":1e16}))
S+= [
FnSpec(M+"calculate_tvl",["h","st"],{"":Out(lambda e:e.h*e.st.f0/e.st.f1,"down",1)}),
FnSpec(M+"calculate_delta_imbalance",["d","l","q"],{"":Out(lambda e:e.d*e.l.value/e.q,"down",1)}),
FnSpec(M+"calculate_spot_price",["x","y","fee"],{"":Out(lambda e:e.x.hub_reserve/e.x.reserve*e.y.reserve/e.y.hub_reserve*opt(e.fee,lambda f:(1-f.f0)*(1-f.f1),1),"down",1e6)}),
FnSpec(M+"calculate_lrna_spot_price",["x","fee"],{"":Out(lambda e:e.x.reserve/e.x.hub_reserve*opt(e.fee,lambda f:1-f,1),"down",3)}),
FnSpec(M+"calculate_cap_difference",["x","cap","q"],{"":Out(lambda e:0 if e.le(e.q*e.cap/10**18,e.x.hub_reserve) else e.x.reserve*(1-e.x.hub_reserve/(e.q*e.cap/10**18)),"near",2e7)},mags={"cap":5e17}),
FnSpec(M+"calculate_tvl_cap_difference",["x","y","cap","q"],{"":Out(lambda e:0 if e.le(e.cap*e.y.hub_reserve/e.y.reserve,e.q) else (e.cap*e.y.hub_reserve/e.y.reserve-e.q)*e.x.reserve/e.x.hub_reserve,"down",3)}),
]

TY="math::omnipool::types::"
U={"Balance":("u128",)}
def sv(e,v):
    """signed value of a balance update argument on this path"""
    n=tonode_(v)
    for f,p in e._ck.st.facts:
        if f.op=="is" and f.args[0] is n:
            inc=(f.args[1]=="Increase")==p
            x=e.node(mk("vfld",n,"Increase" if inc else "Decrease","0"))
            return x if inc else -x
    raise Split(mk("is",n,"Increase"))
aself=lambda f: "Self" in str(f.params[1][1]) 
S+=[
FnSpec(TY+"BalanceUpdate::checked_add",["u","v"],{"":Out(lambda e:sv(e,e.raw("u"))+sv(e,e.raw("v")),"exact",0,signed=True)},tymap=U,degenerate=False,reject="open"),
FnSpec(TY+"BalanceUpdate::merge",["u","v"],{"":Out(lambda e:sv(e,e.raw("u"))+sv(e,e.raw("v")),"exact",0,signed=True)},tymap=U,degenerate=False,reject="open"),
FnSpec(TY+"BalanceUpdate::add",["u","v"],{"":Out(lambda e:sv(e,e.raw("u"))+sv(e,e.raw("v")),"exact",0,signed=True)},tymap=U,degenerate=False,reject="open",pick=lambda f:"Self" in str(f.params[1][1])),
FnSpec(TY+"BalanceUpdate::add",["u","b"],{"":Out(lambda e:e.b+sv(e,e.raw("u")),"exact",0)},tymap=U,degenerate=False,reject="open",pick=lambda f:"Self" not in str(f.params[1][1])),
FnSpec(TY+"AssetReserveState::delta_update",["s","d"],{k:Out(lambda e,k=k:getattr(e.s,k)+sv(e,e._ck.it.force(fv(e,"d","delta_"+k),e._ck.st)),"exact",0) for k in ("reserve","hub_reserve","shares","protocol_shares")},tymap=U,degenerate=False,reject="open"),
FnSpec(TY+"AssetReserveState::price",["s"],{"":Out(lambda e:e.s.hub_reserve/e.s.reserve,"down",1)},tymap=U),
FnSpec(TY+"Position::price",["p"],{"":Out(lambda e:e.p.price.f0/e.p.price.f1,"down",1)},tymap=U),
FnSpec(M+"calculate_withdrawal_fee",["sp","op","mn"],{"":[
  Out(lambda e:e.mn,"exact",0,when=lambda e,c,st:e.holds(eq(ZERO,tonode_(e.raw("op"))))),
  Out(lambda e:e.max(e.mn,e.min(1,(e.max(e.sp,e.op)-e.min(e.sp,e.op))/e.op)),"down",1)]},reject="open",degenerate=False,assume=[lambda a:[(lt(const(10**6),tonode_(a["mn"])),False)]],mags={"mn":1e4,"sp":1e18,"op":1e18}),
]
def cap_judge(a,st,n):
    h,cap,q,am=mk("fld",tonode_(a["x"]),"hub_reserve"),tonode_(a["cap"]),tonode_(a["q"]),tonode_(a["a"])
    want=nnot(lt(cap,NX_div((NX(h)+NX(am)).n,(NX(q)+NX(am)).n)))
    if n is want: return [("cap",True,"")]
    known={"not","lt","div","mul","add","const","fld","var","sub"}
    ops=set(); todo=[n]
    while todo:
        x=todo.pop(); ops.add(x.op); todo+=[y for y in x.args if hasattr(y,"op")]
    return [("cap",False if ops<=known else None,f"the asset is within its cap when {show(n)[:200]}, expected {show(want)[:200]}")]
def NX_div(a,b):
    return (NX(a)*NX(const(10**18))/NX(b)).n
S+=[NodeSpec(M+"verify_asset_cap",["x","cap","a","q"],cap_judge)]
def fv(e,nm,k):
    v=e.raw(nm)
    return v.f[k] if hasattr(v,"f") and k in v.f else Num(mk("fld",tonode_(v),k))


def specs():
    return S
