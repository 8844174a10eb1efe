#fn types::sqrt_price::calculate_sqrt_price
    ensures r is Ok ==> -MAXT() <= tick_index <= MAXT() && r->Ok_0.0 == tick_price(tick_index as int)
#start
    proof { assert(pow10(12) == E12()) by (compute); }
#afterlet sqrt_price
    proof { lemma_prod0(tick); }
#isoif 2
    invariant __o ==> sqrt_price.0 == tick_prod(tick, 0), !__o ==> sqrt_price.0 == tick_prod(tick, 1)
    decreases (if __o { 1int } else { 0int })
#isoend 2
    proof { lemma_prod_1(tick); }
#isoif 3
    invariant __o ==> sqrt_price.0 == tick_prod(tick, 1), !__o ==> sqrt_price.0 == tick_prod(tick, 2)
    decreases (if __o { 1int } else { 0int })
#isoend 3
    proof { lemma_prod_2(tick); }
#isoif 4
    invariant __o ==> sqrt_price.0 == tick_prod(tick, 2), !__o ==> sqrt_price.0 == tick_prod(tick, 3)
    decreases (if __o { 1int } else { 0int })
#isoend 4
    proof { lemma_prod_3(tick); }
#isoif 5
    invariant __o ==> sqrt_price.0 == tick_prod(tick, 3), !__o ==> sqrt_price.0 == tick_prod(tick, 4)
    decreases (if __o { 1int } else { 0int })
#isoend 5
    proof { lemma_prod_4(tick); }
#isoif 6
    invariant __o ==> sqrt_price.0 == tick_prod(tick, 4), !__o ==> sqrt_price.0 == tick_prod(tick, 5)
    decreases (if __o { 1int } else { 0int })
#isoend 6
    proof { lemma_prod_5(tick); }
#isoif 7
    invariant __o ==> sqrt_price.0 == tick_prod(tick, 5), !__o ==> sqrt_price.0 == tick_prod(tick, 6)
    decreases (if __o { 1int } else { 0int })
#isoend 7
    proof { lemma_prod_6(tick); }
#isoif 8
    invariant __o ==> sqrt_price.0 == tick_prod(tick, 6), !__o ==> sqrt_price.0 == tick_prod(tick, 7)
    decreases (if __o { 1int } else { 0int })
#isoend 8
    proof { lemma_prod_7(tick); }
#isoif 9
    invariant __o ==> sqrt_price.0 == tick_prod(tick, 7), !__o ==> sqrt_price.0 == tick_prod(tick, 8)
    decreases (if __o { 1int } else { 0int })
#isoend 9
    proof { lemma_prod_8(tick); }
#isoif 10
    invariant __o ==> sqrt_price.0 == tick_prod(tick, 8), !__o ==> sqrt_price.0 == tick_prod(tick, 9)
    decreases (if __o { 1int } else { 0int })
#isoend 10
    proof { lemma_prod_9(tick); }
#isoif 11
    invariant __o ==> sqrt_price.0 == tick_prod(tick, 9), !__o ==> sqrt_price.0 == tick_prod(tick, 10)
    decreases (if __o { 1int } else { 0int })
#isoend 11
    proof { lemma_prod_10(tick); }
#isoif 12
    invariant __o ==> sqrt_price.0 == tick_prod(tick, 10), !__o ==> sqrt_price.0 == tick_prod(tick, 11)
    decreases (if __o { 1int } else { 0int })
#isoend 12
    proof { lemma_prod_11(tick); }
#isoif 13
    invariant __o ==> sqrt_price.0 == tick_prod(tick, 11), !__o ==> sqrt_price.0 == tick_prod(tick, 12)
    decreases (if __o { 1int } else { 0int })
#isoend 13
    proof { lemma_prod_12(tick); }
#isoif 14
    invariant __o ==> sqrt_price.0 == tick_prod(tick, 12), !__o ==> sqrt_price.0 == tick_prod(tick, 13)
    decreases (if __o { 1int } else { 0int })
#isoend 14
    proof { lemma_prod_13(tick); }
#isoif 15
    invariant __o ==> sqrt_price.0 == tick_prod(tick, 13), !__o ==> sqrt_price.0 == tick_prod(tick, 14)
    decreases (if __o { 1int } else { 0int })
#isoend 15
    proof { lemma_prod_14(tick); }
#isoif 16
    invariant __o ==> sqrt_price.0 == tick_prod(tick, 14), !__o ==> sqrt_price.0 == tick_prod(tick, 15)
    decreases (if __o { 1int } else { 0int })
#isoend 16
    proof { lemma_prod_15(tick); }
#isoif 17
    invariant __o ==> sqrt_price.0 == tick_prod(tick, 15), !__o ==> sqrt_price.0 == tick_prod(tick, 16)
    decreases (if __o { 1int } else { 0int })
#isoend 17
    proof { lemma_prod_16(tick); }
#isoif 18
    invariant __o ==> sqrt_price.0 == tick_prod(tick, 16), !__o ==> sqrt_price.0 == tick_prod(tick, 17)
    decreases (if __o { 1int } else { 0int })
#isoend 18
    proof { lemma_prod_17(tick); }
#isoif 19
    invariant __o ==> sqrt_price.0 == tick_prod(tick, 17), !__o ==> sqrt_price.0 == tick_prod(tick, 18)
    decreases (if __o { 1int } else { 0int })
#isoend 19
    proof { lemma_prod_18(tick); }
#fn types::sqrt_price::SqrtPrice::from_tick
    ensures r is Ok ==> -MAXT() <= i <= MAXT() && r->Ok_0.0 == tick_price(i as int)
