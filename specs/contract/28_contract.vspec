#rem ---- contract: dispatch ----
#fn contract::instantiate
    ensures r is Ok ==> instantiated(old(deps).storage@, final(deps).storage@, info.sender@, msg.protocol_fee) && r->Ok_0.messages@.len() == 0
#fn contract::execute
    ensures r is Ok ==> executed(old(deps).storage@, final(deps).storage@, env, info, msg, r->Ok_0.messages@)
#fn contract::migrate
    ensures r is Ok ==> final(_deps).storage@ == old(_deps).storage@ && r->Ok_0.messages@.len() == 0
#fn contract::query
    ensures r is Ok ==> answered(deps.storage@, env, msg, r->Ok_0@)
