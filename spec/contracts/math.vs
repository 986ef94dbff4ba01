fn tick_math::pow_ten(expo) -> r
  @live C03 C06 C07 C20 C21 C25
    -40 <= expo <= 40
  @ensures C01
    -40 <= expo <= 40 ==> r is Ok,
  @ensures C01
    r is Ok ==> r->Ok_0@ == ten_pow(expo as int)
  @entry
    proof { if 0 <= expo <= 40 { lem_ten_pow(expo as int); } lem_pow_small(iabs(expo as int)); lem_p10();
      if expo > -2147483648 && expo < 0 { lem_npow_pos(10, iabs(expo as int)); assert(E18() / npow(10, iabs(expo as int)) <= E18()) by (nonlinear_arith) requires npow(10, iabs(expo as int)) >= 1; } }

fn tick_math::tick_to_price(tick_index) -> r
  @ensures C01
    r is Ok <==> in_range(tick_index as int),
  @ensures C01
    r is Ok ==> r->Ok_0@ == ladder(tick_index as int)
  @flag total
  @entry
    proof { lem_tick_to_price(tick_index as int); }

fn tick_math::RoundingDirection::round(self, input) -> r
  @ensures C02
    r@ == (match self { RoundingDirection::Down => input@ / E18(), RoundingDirection::Up => ceil_div(input@, E18()) })

fn tick_math::multiply_by_price(amount, price, rounding_direction) -> r
  @flag total
  @ensures C02
    r is Ok <==> amount@ * price@ < P256(),
  @ensures C02
    r is Ok ==> r->Ok_0@ == (match rounding_direction { RoundingDirection::Down => vdown(OrderDirection::Ask, amount@, price@), RoundingDirection::Up => vup(OrderDirection::Ask, amount@, price@) })
  @entry
    proof { lem_amt(amount@); lem_mul_scaled(price@, amount@); }

fn tick_math::divide_by_price(amount, price, rounding_direction) -> r
  @flag total
  @ensures C02
    r is Ok <==> price@ != 0 && conv(OrderDirection::Bid, amount@, price@) < P256(),
  @ensures C02
    r is Ok ==> r->Ok_0@ == (match rounding_direction { RoundingDirection::Down => vdown(OrderDirection::Bid, amount@, price@), RoundingDirection::Up => vup(OrderDirection::Bid, amount@, price@) })
  @entry
    proof { lem_amt(amount@); }

fn tick_math::amount_to_value(order, amount, price, rounding_direction) -> r
  @flag total
  @ensures C02
    r is Ok <==> amount@ == 0 || (conv(order, amount@, price@) < P256() && (order == OrderDirection::Bid ==> price@ != 0)),
  @ensures C02
    r is Ok ==> r->Ok_0@ == (match rounding_direction { RoundingDirection::Down => vdown(order, amount@, price@), RoundingDirection::Up => vup(order, amount@, price@) }) || (amount@ == 0 && r->Ok_0@ == 0 && price@ == 0),
  @ensures C02
    1_000_000 <= price@ < P128() ==> r is Ok
  @entry
    proof { if 1_000_000 <= price@ < P128() { lem_conv_fits(order, amount@, price@); } lem_conv_zero(order, price@); }
