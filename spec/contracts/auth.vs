fn auth::offer_admin(storage, api, new_admin) -> r
  @ensures C18
    r is Ok <==> addr_valid(new_admin@),
  @ensures C18
    r is Ok ==> $post == (SV { f_admin_offer: Some(new_admin), ..$pre })

fn auth::remove_admin_transfer(storage) -> r
  @ensures C18
    r is Ok && $post == (SV { f_admin_offer: None, ..$pre })

fn auth::update_admin(storage, api, new_admin) -> r
  @ensures C18
    r is Ok <==> addr_valid(new_admin@),
  @ensures C18
    r is Ok ==> $post == (SV { f_admin: Some(new_admin), f_admin_offer: None, ..$pre })

fn auth::remove_admin(storage) -> r
  @ensures C18
    r is Ok && $post == (SV { f_admin: None, f_admin_offer: None, ..$pre })

fn auth::get_admin(storage) -> r
  @ensures C18
    r is Ok && r->Ok_0 == $pre.f_admin

fn auth::get_admin_offer(storage) -> r
  @ensures C18
    r is Ok && r->Ok_0 == $pre.f_admin_offer

fn auth::get_moderator(storage) -> r
  @ensures C18
    r is Ok && r->Ok_0 == $pre.f_moderator

fn auth::get_moderator_offer(storage) -> r
  @ensures C18
    r is Ok && r->Ok_0 == $pre.f_moderator_offer

fn auth::offer_moderator(storage, api, new_mod) -> r
  @ensures C18
    r is Ok <==> addr_valid(new_mod@),
  @ensures C18
    r is Ok ==> $post == (SV { f_moderator_offer: Some(new_mod), ..$pre })

fn auth::remove_moderator_offer(storage) -> r
  @ensures C18
    r is Ok && $post == (SV { f_moderator_offer: None, ..$pre })

fn auth::update_moderator(storage, api, new_admin) -> r
  @ensures C18
    r is Ok <==> addr_valid(new_admin@),
  @ensures C18
    r is Ok ==> $post == (SV { f_moderator: Some(new_admin), ..$pre })

fn auth::ensure_is_admin(deps, sender) -> r
  @ensures C18
    r is Ok <==> is_addr($pre.f_admin, *sender)

fn auth::ensure_is_admin_or_moderator(deps, sender) -> r
  @ensures C18
    r is Ok <==> (is_addr($pre.f_admin, *sender) || is_addr($pre.f_moderator, *sender))

fn auth::dispatch_transfer_admin(deps, info, new_admin) -> r
  @ensures C18 C19
    r is Ok <==> auth_ok($pre, info.sender, AuthExecuteMsg::TransferAdmin { new_admin: new_admin }),
  @ensures C18
    r is Ok ==> auth_step($pre, info.sender, AuthExecuteMsg::TransferAdmin { new_admin: new_admin }, $post)
  @ensures C24
    r is Ok ==> r->Ok_0.messages@.len() == 0

fn auth::dispatch_cancel_admin_transfer(deps, info) -> r
  @ensures C18 C19
    r is Ok <==> auth_ok($pre, info.sender, AuthExecuteMsg::CancelAdminTransfer { }),
  @ensures C18
    r is Ok ==> auth_step($pre, info.sender, AuthExecuteMsg::CancelAdminTransfer { }, $post)
  @ensures C24
    r is Ok ==> r->Ok_0.messages@.len() == 0

fn auth::dispatch_claim_admin(deps, info) -> r
  @ensures C18 C19
    r is Ok <==> auth_ok($pre, info.sender, AuthExecuteMsg::ClaimAdmin { }),
  @ensures C18
    r is Ok ==> auth_step($pre, info.sender, AuthExecuteMsg::ClaimAdmin { }, $post)
  @ensures C24
    r is Ok ==> r->Ok_0.messages@.len() == 0

fn auth::dispatch_reject_admin_transfer(deps, info) -> r
  @ensures C18 C19
    r is Ok <==> auth_ok($pre, info.sender, AuthExecuteMsg::RejectAdminTransfer { }),
  @ensures C18
    r is Ok ==> auth_step($pre, info.sender, AuthExecuteMsg::RejectAdminTransfer { }, $post)
  @ensures C24
    r is Ok ==> r->Ok_0.messages@.len() == 0

fn auth::dispatch_renounce_adminship(deps, info) -> r
  @ensures C18 C19
    r is Ok <==> auth_ok($pre, info.sender, AuthExecuteMsg::RenounceAdminship { }),
  @ensures C18
    r is Ok ==> auth_step($pre, info.sender, AuthExecuteMsg::RenounceAdminship { }, $post)
  @ensures C24
    r is Ok ==> r->Ok_0.messages@.len() == 0

fn auth::dispatch_offer_moderator(deps, info, new_moderator) -> r
  @ensures C18 C19
    r is Ok <==> auth_ok($pre, info.sender, AuthExecuteMsg::OfferModerator { new_moderator: new_moderator }),
  @ensures C18
    r is Ok ==> auth_step($pre, info.sender, AuthExecuteMsg::OfferModerator { new_moderator: new_moderator }, $post)
  @ensures C24
    r is Ok ==> r->Ok_0.messages@.len() == 0

fn auth::dispatch_claim_moderator(deps, info) -> r
  @ensures C18 C19
    r is Ok <==> auth_ok($pre, info.sender, AuthExecuteMsg::ClaimModerator { }),
  @ensures C18
    r is Ok ==> auth_step($pre, info.sender, AuthExecuteMsg::ClaimModerator { }, $post)
  @ensures C24
    r is Ok ==> r->Ok_0.messages@.len() == 0

fn auth::dispatch_reject_moderator_offer(deps, info) -> r
  @ensures C18 C19
    r is Ok <==> auth_ok($pre, info.sender, AuthExecuteMsg::RejectModeratorOffer { }),
  @ensures C18
    r is Ok ==> auth_step($pre, info.sender, AuthExecuteMsg::RejectModeratorOffer { }, $post)
  @ensures C24
    r is Ok ==> r->Ok_0.messages@.len() == 0

fn auth::dispatch_set_active(deps, info, active) -> r
  @ensures C18 C19
    r is Ok <==> auth_ok($pre, info.sender, AuthExecuteMsg::SetActive { active: active }),
  @ensures C18 C19
    r is Ok ==> auth_step($pre, info.sender, AuthExecuteMsg::SetActive { active: active }, $post)
  @ensures C24
    r is Ok ==> r->Ok_0.messages@.len() == 0

fn auth::dispatch_set_maker_fee(deps, info, maker_fee) -> r
  @ensures C18 C19
    r is Ok <==> auth_ok($pre, info.sender, AuthExecuteMsg::SetMakerFee { fee: maker_fee }),
  @ensures C18 C20
    r is Ok ==> auth_step($pre, info.sender, AuthExecuteMsg::SetMakerFee { fee: maker_fee }, $post)
  @ensures C24
    r is Ok ==> r->Ok_0.messages@.len() == 0

fn auth::dispatch_set_maker_fee_recipient(deps, info, maker_fee_recipient) -> r
  @ensures C18 C19
    r is Ok <==> auth_ok($pre, info.sender, AuthExecuteMsg::SetMakerFeeRecipient { recipient: maker_fee_recipient }),
  @ensures C18 C20
    r is Ok ==> auth_step($pre, info.sender, AuthExecuteMsg::SetMakerFeeRecipient { recipient: maker_fee_recipient }, $post)
  @ensures C24
    r is Ok ==> r->Ok_0.messages@.len() == 0

fn auth::dispatch(deps, info, msg) -> r
  @ensures C18 C19
    r is Ok <==> auth_ok($pre, info.sender, msg),
  @ensures C18 C19 C20
    r is Ok ==> auth_step($pre, info.sender, msg, $post)
  @ensures C24
    r is Ok ==> r->Ok_0.messages@.len() == 0

fn auth::query(deps, msg) -> r
  @ensures C18
    r is Ok && r->Ok_0 == (match msg { AuthQueryMsg::Admin { } => $pre.f_admin, AuthQueryMsg::AdminOffer { } => $pre.f_admin_offer, AuthQueryMsg::Moderator { } => $pre.f_moderator, AuthQueryMsg::ModeratorOffer { } => $pre.f_moderator_offer })

fn orderbook::set_maker_fee(storage, maker_fee) -> r
  @ensures C20
    r is Ok <==> maker_fee@ <= FEE_MAX(),
  @ensures C20
    r is Ok ==> r->Ok_0 == maker_fee && $post == (SV { f_maker_fee: Some(maker_fee), ..$pre })

fn orderbook::set_maker_fee_recipient(deps, maker_fee_recipient) -> r
  @ensures C20 C24
    r is Ok <==> addr_valid(maker_fee_recipient@),
  @ensures C20 C24
    r is Ok ==> $post == (SV { f_maker_fee_recipient: Some(addr(maker_fee_recipient@)), ..$pre })

fn orderbook::create_orderbook(deps, quote_denom, base_denom) -> r
  @ensures C24
    r is Ok ==> quote_denom@ != base_denom@ && supplied(old(deps.storage).sv@, deps.querier, quote_denom@) && supplied(old(deps.storage).sv@, deps.querier, base_denom@),
  @ensures C13 C20 C24
    r is Ok ==> $post == (SV { f_orderbook: Some(Orderbook { quote_denom: quote_denom, base_denom: base_denom, current_tick: 0, next_bid_tick: TMIN() as i64, next_ask_tick: TMAX() as i64 }),
        f_maker_fee: Some(d256(0)), f_maker_fee_recipient: Some(addr("osmo1r9jc2234fljy93z80cevqjt3nmjycec8aj4cc6"@)), ..$pre })

fn sudo::set_active(deps, active) -> r
  @ensures C19
    r is Ok,
  @ensures C18 C19
    r is Ok ==> $post == (SV { f_is_active: Some(active), ..$pre })
  @ensures C24
    r is Ok ==> r->Ok_0.messages@.len() == 0

fn sudo::ensure_is_active(deps) -> r
  @ensures C19
    r is Ok <==> active($pre)

fn query::is_active(deps) -> r
  @ensures C19
    r is Ok && r->Ok_0 == active($pre)

fn state::get_maker_fee(storage) -> r
  @ensures C20
    r is Ok && r->Ok_0@ == fee($pre)
