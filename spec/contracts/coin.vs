fn types::coin::from__Coin256__ProtoCoin()
  @flag C06 C10
  @rel
    coin_wire(self, r)

fn types::coin::from__MsgSend256__MsgSend()
  @flag C06 C10
  @rel
    send_wire(self, r)
  @loop 0
    invariant vx_src0 == self.amount, vx_i0 <= vx_src0@.len(), vx_out0@.len() == vx_i0,
      forall|i: int| 0 <= i < vx_i0 ==> coin_wire(#[trigger] vx_src0@[i], vx_out0@[i]),

fn types::coin::from__MsgSend256__CosmosMsg()
  @flag C06 C10
  @rel
    r is Proto && send_wire(self, r->Proto_0)

fn types::coin::from__Coin256__Coin()
  @flag C10
  @rel
    r.denom == self.denom && r.amount@ == self.amount@
  @entry
    broadcast use ax_num_str;
