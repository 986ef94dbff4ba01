fn order::run_market_order_internal(storage, order, tick_bound) -> r
  @attr #[verifier::rlimit(60)]
  @ensures C08 C09 C10 C13 C21
    r is Ok <==> swap_ok($pre, old(order).order_direction, old(order).quantity@, tick_bound),
  @ensures C08 C09 C10 C13 C21
    r is Ok ==> ({ let w = swap_all($pre, old(order).order_direction, old(order).quantity@, tick_bound);
      &&& final(order).quantity@ == w.rem && *final(order) == (MarketOrder { quantity: final(order).quantity, ..*old(order) })
      &&& r->Ok_0.output.amount@ == w.out && r->Ok_0.output.denom == pay_denom($pre.f_orderbook->0, old(order).order_direction)
      &&& r->Ok_0.tick_updates@ =~= w.upd && r->Ok_0.updated_orderbook == w.book }),
  @ensures C09
    r is Ok ==> swap_lists($pre, old(order).order_direction, tick_bound)
  @entry
    hide(ladder); hide(vdown); hide(vup); hide(conv); hide(swap_run);
    let ghost vx_d = order.order_direction; let ghost vx_q = order.quantity@;
    proof { lem_swap_ctx($pre, vx_d, vx_q, tick_bound); lem_value_dec(); }
  @loop 0
    invariant_except_break !swap_at($pre, vx_d, vx_q, tick_bound, vx_i0 as nat).dust,
    invariant vx_i0 <= vx_src0@.len(), vx_src0@.len() == swap_ticks($pre, vx_d, tick_bound).len(), order.order_direction == vx_d, order.owner == old(order).owner, vx_d == old(order).order_direction, vx_q == old(order).quantity@, 1_000_000 <= last_tick_price@ < P128(),
      forall|i: int| 0 <= i < vx_src0@.len() ==> (#[trigger] vx_src0@[i]).vkey() == Some(swap_ticks($pre, vx_d, tick_bound)[i]), swap_lists($pre, vx_d, tick_bound),
      swap_ctx($pre, vx_d, vx_q, tick_bound),
      ({ let w = swap_at($pre, vx_d, vx_q, tick_bound, vx_i0 as nat);
        !w.bad && w.rem == order.quantity@ && w.out == total_output@ && w.upd =~= tick_updates@ && w.book == orderbook && w.price == last_tick_price@ }),
    ensures ({ let w = swap_all($pre, vx_d, vx_q, tick_bound);
        !w.bad && w.rem == order.quantity@ && w.out == total_output@ && w.upd =~= tick_updates@ && w.book == orderbook && w.price == last_tick_price@ }), order.order_direction == vx_d, order.owner == old(order).owner, 1_000_000 <= last_tick_price@ < P128(), swap_lists($pre, vx_d, tick_bound),
  @before vx_take
    proof { lem_swap_next($pre, vx_d, vx_q, tick_bound, vx_i0 as nat); }

fn order::run_market_order(storage, contract_address, order, tick_bound) -> r
  @live C08 C10
    out_fits($pre, old(order).order_direction, old(order).quantity@, tick_bound)
  @flag isolated
  @ensures C08 C09 C10 C11
    r is Ok <==> swap_ok($pre, old(order).order_direction, old(order).quantity@, tick_bound) && dliq($pre, opp(old(order).order_direction)) >= swap_all($pre, old(order).order_direction, old(order).quantity@, tick_bound).out * E18(),
  @ensures C08 C11 C12 C13 C14
    r is Ok ==> $post =~= swapped($pre, old(order).order_direction, old(order).quantity@, tick_bound),
  @ensures C09 C13
    r is Ok ==> swap_lists($pre, old(order).order_direction, tick_bound),
  @ensures C10 C21
    r is Ok ==> ({ let w = swap_all($pre, old(order).order_direction, old(order).quantity@, tick_bound);
      &&& final(order).quantity@ == w.rem && *final(order) == (MarketOrder { quantity: final(order).quantity, ..*old(order) })
      &&& r->Ok_0.0@ == w.out && r->Ok_0.1.from_address@ == contract_address@ && r->Ok_0.1.to_address@ == old(order).owner@ && r->Ok_0.1.amount@.len() == 1
      &&& r->Ok_0.1.amount@[0].amount@ == w.out && r->Ok_0.1.amount@[0].denom == pay_denom($pre.f_orderbook->0, old(order).order_direction) })
  @loop 0
    invariant vx_i0 <= vx_src0@.len(), vx_src0@.take(vx_src0@.len() as int) =~= vx_src0@, vx_src0@ == swap_all($pre, old(order).order_direction, old(order).quantity@, tick_bound).upd,
      storage.sv@ =~= (SV { f_tick_state: save_all(vx_at0.f_tick_state, vx_src0@.take(vx_i0 as int)), ..vx_at0 }),
      forall|i: int| #![trigger vx_src0@.take(i + 1)] 0 <= i < vx_src0@.len() ==> vx_src0@.take(i + 1).drop_last() =~= vx_src0@.take(i) && vx_src0@.take(i + 1).last() == vx_src0@[i],
    ensures vx_src0@.take(vx_src0@.len() as int) =~= vx_src0@, vx_src0@ == swap_all($pre, old(order).order_direction, old(order).quantity@, tick_bound).upd, storage.sv@ =~= (SV { f_tick_state: save_all(vx_at0.f_tick_state, vx_src0@), ..vx_at0 }),
