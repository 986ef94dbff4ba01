pub open spec fn addr(s: Seq<char>) -> Addr { Addr { at: Ghost(s) } }
pub open spec fn is_addr(o: Option<Addr>, a: Addr) -> bool { o is Some && o->0@ == a@ }
pub open spec fn FEE_MAX() -> nat { 50_000_000_000_000_000nat }
pub open spec fn active(s: SV) -> bool { match s.f_is_active { Some(b) => b, None => true } }
pub open spec fn fee(s: SV) -> nat { match s.f_maker_fee { Some(f) => f@, None => 0 } }
pub open spec fn supplied(s: SV, q: QuerierWrapper, d: Seq<char>) -> bool { supply_ok(q, d) && supply_amt(q, d) > 0 }
// exact effect of a successful role message
pub open spec fn auth_step(s: SV, sender: Addr, m: AuthExecuteMsg, t: SV) -> bool {
  match m {
    AuthExecuteMsg::TransferAdmin { new_admin } => is_addr(s.f_admin, sender) && addr_valid(new_admin@) && t == (SV { f_admin_offer: Some(new_admin), ..s }),
    AuthExecuteMsg::CancelAdminTransfer { } => is_addr(s.f_admin, sender) && t == (SV { f_admin_offer: None, ..s }),
    AuthExecuteMsg::RejectAdminTransfer { } => is_addr(s.f_admin_offer, sender) && t == (SV { f_admin_offer: None, ..s }),
    AuthExecuteMsg::ClaimAdmin { } => is_addr(s.f_admin_offer, sender) && t == (SV { f_admin: Some(sender), f_admin_offer: None, ..s }),
    AuthExecuteMsg::RenounceAdminship { } => is_addr(s.f_admin, sender) && t == (SV { f_admin: None, f_admin_offer: None, ..s }),
    AuthExecuteMsg::OfferModerator { new_moderator } => is_addr(s.f_admin, sender) && addr_valid(new_moderator@) && t == (SV { f_moderator_offer: Some(new_moderator), ..s }),
    AuthExecuteMsg::RejectModeratorOffer { } => is_addr(s.f_moderator_offer, sender) && t == (SV { f_moderator_offer: None, ..s }),
    AuthExecuteMsg::ClaimModerator { } => is_addr(s.f_moderator_offer, sender) && t == (SV { f_moderator: Some(sender), f_moderator_offer: None, ..s }),
    AuthExecuteMsg::SetActive { active } => (is_addr(s.f_admin, sender) || is_addr(s.f_moderator, sender)) && t == (SV { f_is_active: Some(active), ..s }),
    AuthExecuteMsg::SetMakerFee { fee } => is_addr(s.f_admin, sender) && fee@ <= FEE_MAX() && t == (SV { f_maker_fee: Some(fee), ..s }),
    AuthExecuteMsg::SetMakerFeeRecipient { recipient } => is_addr(s.f_admin, sender) && addr_valid(recipient@) && t == (SV { f_maker_fee_recipient: Some(recipient), ..s }),
  }
}
// who may do what
pub open spec fn auth_ok(s: SV, sender: Addr, m: AuthExecuteMsg) -> bool {
  match m {
    AuthExecuteMsg::TransferAdmin { new_admin } => is_addr(s.f_admin, sender) && addr_valid(new_admin@),
    AuthExecuteMsg::CancelAdminTransfer { } => is_addr(s.f_admin, sender),
    AuthExecuteMsg::RejectAdminTransfer { } => is_addr(s.f_admin_offer, sender),
    AuthExecuteMsg::ClaimAdmin { } => is_addr(s.f_admin_offer, sender) && addr_valid(sender@),
    AuthExecuteMsg::RenounceAdminship { } => is_addr(s.f_admin, sender),
    AuthExecuteMsg::OfferModerator { new_moderator } => is_addr(s.f_admin, sender) && addr_valid(new_moderator@),
    AuthExecuteMsg::RejectModeratorOffer { } => is_addr(s.f_moderator_offer, sender),
    AuthExecuteMsg::ClaimModerator { } => is_addr(s.f_moderator_offer, sender) && addr_valid(sender@),
    AuthExecuteMsg::SetActive { active } => is_addr(s.f_admin, sender) || is_addr(s.f_moderator, sender),
    AuthExecuteMsg::SetMakerFee { fee } => is_addr(s.f_admin, sender) && fee@ <= FEE_MAX(),
    AuthExecuteMsg::SetMakerFeeRecipient { recipient } => is_addr(s.f_admin, sender) && addr_valid(recipient@),
  }
}
