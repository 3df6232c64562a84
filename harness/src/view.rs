//! Everything a user can read from a message, as a list of (getter, value).
use tmi::*;

pub type View = Vec<(String, String)>;

/// First difference between two views.
pub fn diff(got: &View, want: &View) -> Option<String> {
  for i in 0..got.len().max(want.len()) {
    match (got.get(i), want.get(i)) {
      (Some(a), Some(b)) if a == b => {}
      (Some(a), Some(b)) if a.0 == b.0 => return Some(format!("{}: got {}, expected {}", a.0, clip(&a.1), clip(&b.1))),
      (a, b) => return Some(format!("got {:?}, expected {:?}", a, b)),
    }
  }
  None
}

fn clip(s: &str) -> String {
  crate::engine::clip(s, 300)
}

pub struct V(pub View, String);
impl V {
  pub fn new() -> V {
    V(vec![], String::new())
  }
  pub fn f(&mut self, k: &str, v: impl std::fmt::Debug) -> &mut Self {
    self.0.push((format!("{}{k}", self.1), format!("{v:?}")));
    self
  }
  pub fn nest(&mut self, k: &str, f: impl FnOnce(&mut V)) -> &mut Self {
    let old = self.1.clone();
    self.1 = format!("{old}{k}.");
    f(self);
    self.1 = old;
    self
  }
}

macro_rules! raw_view_body {
  ($m:ident) => {{
    let mut v = V::new();
    v.f("raw", $m.raw());
    let tags: Vec<(&str, &str)> = $m.tags().collect();
    v.f("tags", &tags);
    v.f("prefix", $m.prefix());
    v.f("prefix_str", $m.prefix().map(|p| p.to_string()));
    v.f("command", $m.command());
    v.f("command_str", $m.command().to_string());
    v.f("channel", $m.channel());
    v.f("params", $m.params());
    v.f("text", $m.text());
    for (k, _) in &tags {
      v.f("tag()", $m.tag(*k));
    }
    v.0
  }};
}

pub fn raw_ref(m: &IrcMessageRef<'_>) -> View {
  raw_view_body!(m)
}
pub fn raw_owned(m: &IrcMessage) -> View {
  raw_view_body!(m)
}

pub fn user(v: &mut V, u: &User<'_>) {
  v.f("id", u.id()).f("login", u.login()).f("name", u.name());
}

pub fn badge(b: &Badge<'_>) -> String {
  let d = b.as_badge_data();
  let kind = match b {
    Badge::Staff => "Staff".to_string(),
    Badge::Turbo => "Turbo".to_string(),
    Badge::Broadcaster => "Broadcaster".to_string(),
    Badge::Moderator => "Moderator".to_string(),
    Badge::Subscriber(s) => format!("Subscriber({:?},{})", s.version(), s.months()),
    Badge::Other(o) => format!("Other({:?},{:?},{:?})", o.name(), o.version(), o.extra()),
  };
  format!("{kind}|{:?},{:?},{:?}", d.name(), d.version(), d.extra())
}

/// What an iterator yields, taken from both of its ends in turn.
fn both_ends<T>(mut it: impl DoubleEndedIterator<Item = T>) -> Vec<T> {
  let (mut front, mut back) = (vec![], vec![]);
  while let Some(x) = it.next() {
    front.push(x);
    match it.next_back() {
      Some(x) => back.push(x),
      None => break,
    }
  }
  front.extend(back.into_iter().rev());
  front
}

pub fn badges<'a, 's: 'a>(v: &mut V, n: usize, it: impl DoubleEndedIterator<Item = &'a Badge<'s>> + ExactSizeIterator) {
  v.f("num_badges", n);
  v.f("badges.len", it.len());
  let l: Vec<String> = both_ends(it).into_iter().map(badge).collect();
  v.f("badges", l);
}

pub fn privmsg(m: &Privmsg<'_>) -> View {
  let mut v = V::new();
  v.f("channel", m.channel()).f("channel_id", m.channel_id()).f("id", m.id()).f("msg_id", m.msg_id());
  v.nest("sender", |v| user(v, m.sender()));
  v.f("text", m.text()).f("is_action", m.is_action());
  badges(&mut v, m.num_badges(), m.badges());
  v.f("color", m.color()).f("custom_reward_id", m.custom_reward_id()).f("bits", m.bits()).f("raw_emotes", m.raw_emotes());
  v.f("timestamp", (m.timestamp().timestamp_millis(), m.timestamp().timestamp_subsec_nanos() % 1_000_000));
  v.f("reply_to", m.reply_to().is_some());
  if let Some(r) = m.reply_to() {
    v.nest("reply_to", |v| reply(v, r));
  }
  v.f("pinned_chat", m.pinned_chat().is_some());
  if let Some(p) = m.pinned_chat() {
    v.nest("pinned_chat", |v| pinned(v, p));
  }
  v.0
}

pub fn reply(v: &mut V, r: &Reply<'_>) {
  v.f("thread_parent_message_id", r.thread_parent_message_id()).f("thread_parent_user_login", r.thread_parent_user_login()).f("message_id", r.message_id());
  v.nest("sender", |v| user(v, r.sender()));
  v.f("text", r.text());
}

pub fn pinned(v: &mut V, p: &PinnedChat<'_>) {
  v.f("paid_amount", p.paid_amount()).f("paid_currency", p.paid_currency()).f("paid_exponent", p.paid_exponent());
  v.f("paid_level", p.paid_level().as_str()).f("is_system_message", p.is_system_message());
}

pub fn clear_chat(m: &ClearChat<'_>) -> View {
  let mut v = V::new();
  v.f("channel", m.channel()).f("channel_id", m.channel_id()).f("target", m.target());
  v.f("kinds", (m.action().is_clear(), m.action().is_ban(), m.action().is_time_out()));
  v.nest("action", |v| action(v, m.action()));
  v.f("timestamp", (m.timestamp().timestamp_millis(), m.timestamp().timestamp_subsec_nanos() % 1_000_000));
  v.0
}

pub fn action(v: &mut V, a: &Action<'_>) {
  match a {
    Action::Clear => {
      v.f("kind", "clear");
    }
    Action::Ban(b) => {
      v.f("kind", "ban").f("user", b.user()).f("id", b.id());
    }
    Action::TimeOut(b) => {
      v.f("kind", "timeout").f("user", b.user()).f("id", b.id()).f("duration", b.duration());
    }
  }
}

pub fn clear_msg(m: &ClearMsg<'_>) -> View {
  let mut v = V::new();
  v.f("channel", m.channel()).f("channel_id", m.channel_id()).f("sender", m.sender()).f("target_message_id", m.target_message_id());
  v.f("text", m.text()).f("is_action", m.is_action());
  v.f("timestamp", (m.timestamp().timestamp_millis(), m.timestamp().timestamp_subsec_nanos() % 1_000_000));
  v.0
}

pub fn global_user_state(m: &GlobalUserState<'_>) -> View {
  let mut v = V::new();
  v.f("id", m.id()).f("name", m.name());
  badges(&mut v, m.num_badges(), m.badges());
  v.f("num_emote_sets", m.num_emote_sets()).f("emote_sets.len", m.emote_sets().len()).f("emote_sets", both_ends(m.emote_sets())).f("color", m.color());
  v.0
}

pub fn user_state(m: &UserState<'_>) -> View {
  let mut v = V::new();
  v.f("channel", m.channel()).f("user_name", m.user_name());
  badges(&mut v, m.num_badges(), m.badges());
  v.f("num_emote_sets", m.num_emote_sets()).f("emote_sets.len", m.emote_sets().len()).f("emote_sets", both_ends(m.emote_sets())).f("color", m.color());
  v.0
}

pub fn join(m: &Join<'_>) -> View {
  let mut v = V::new();
  v.f("channel", m.channel()).f("user", m.user());
  v.0
}
pub fn part(m: &Part<'_>) -> View {
  let mut v = V::new();
  v.f("channel", m.channel()).f("user", m.user());
  v.0
}
pub fn ping(m: &Ping<'_>) -> View {
  let mut v = V::new();
  v.f("nonce", m.nonce());
  v.0
}
pub fn pong(m: &Pong<'_>) -> View {
  let mut v = V::new();
  v.f("nonce", m.nonce());
  v.0
}
pub fn notice(m: &Notice<'_>) -> View {
  let mut v = V::new();
  v.f("channel", m.channel()).f("text", m.text()).f("id", m.id());
  v.0
}

pub fn room_state(m: &RoomState<'_>) -> View {
  let mut v = V::new();
  v.f("channel", m.channel()).f("channel_id", m.channel_id()).f("emote_only", m.emote_only()).f("followers_only", m.followers_only());
  v.f("r9k", m.r9k()).f("slow", m.slow()).f("subs_only", m.subs_only());
  v.0
}

pub fn whisper(m: &Whisper<'_>) -> View {
  let mut v = V::new();
  v.f("recipient", m.recipient());
  v.nest("sender", |v| user(v, &m.sender()));
  v.f("text", m.text());
  badges(&mut v, m.num_badges(), m.badges());
  v.f("raw_emotes", m.raw_emotes()).f("color", m.color());
  v.0
}

pub fn event(v: &mut V, e: &Event<'_>) {
  let promo = |v: &mut V, p: Option<&SubGiftPromo<'_>>| {
    v.f("promotion", p.is_some());
    if let Some(p) = p {
      v.f("promotion.total_gifts", p.total_gifts()).f("promotion.promo_name", p.promo_name());
    }
  };
  match e {
    Event::SubOrResub(e) => {
      v.f("kind", "SubOrResub").f("is_resub", e.is_resub()).f("cumulative_months", e.cumulative_months()).f("streak_months", e.streak_months());
      v.f("sub_plan", e.sub_plan()).f("sub_plan_name", e.sub_plan_name());
    }
    Event::Raid(e) => {
      v.f("kind", "Raid").f("viewer_count", e.viewer_count()).f("profile_image_url", e.profile_image_url());
    }
    Event::SubGift(e) => {
      v.f("kind", "SubGift").f("cumulative_months", e.cumulative_months());
      v.nest("recipient", |v| user(v, e.recipient()));
      v.f("sub_plan", e.sub_plan()).f("sub_plan_name", e.sub_plan_name()).f("num_gifted_months", e.num_gifted_months());
    }
    Event::SubMysteryGift(e) => {
      v.f("kind", "SubMysteryGift").f("count", e.count()).f("sender_total_gifts", e.sender_total_gifts()).f("sub_plan", e.sub_plan());
    }
    Event::AnonSubMysteryGift(e) => {
      v.f("kind", "AnonSubMysteryGift").f("count", e.count()).f("sub_plan", e.sub_plan());
    }
    Event::GiftPaidUpgrade(e) => {
      v.f("kind", "GiftPaidUpgrade").f("gifter_login", e.gifter_login()).f("gifter_name", e.gifter_name());
      promo(v, e.promotion());
    }
    Event::AnonGiftPaidUpgrade(e) => {
      v.f("kind", "AnonGiftPaidUpgrade");
      promo(v, e.promotion());
    }
    Event::Ritual(e) => {
      v.f("kind", "Ritual").f("name", e.name());
    }
    Event::BitsBadgeTier(e) => {
      v.f("kind", "BitsBadgeTier").f("tier", e.tier());
    }
    Event::Announcement(e) => {
      v.f("kind", "Announcement").f("highlight_color", e.highlight_color());
    }
    Event::Unknown => {
      v.f("kind", "Unknown");
    }
    other => {
      v.f("kind", format!("new: {other:?}"));
    }
  }
}

pub fn user_notice(m: &UserNotice<'_>) -> View {
  let mut v = V::new();
  v.f("channel", m.channel()).f("channel_id", m.channel_id());
  v.f("sender", m.sender().is_some());
  if let Some(s) = m.sender() {
    v.nest("sender", |v| user(v, s));
  }
  v.f("text", m.text()).f("system_message", m.system_message());
  v.nest("event", |v| event(v, m.event()));
  v.f("event_id", m.event_id());
  badges(&mut v, m.num_badges(), m.badges());
  v.f("raw_emotes", m.raw_emotes()).f("color", m.color()).f("message_id", m.message_id());
  v.f("timestamp", (m.timestamp().timestamp_millis(), m.timestamp().timestamp_subsec_nanos() % 1_000_000));
  v.0
}

pub fn variant(m: &Message<'_>) -> &'static str {
  match m {
    Message::ClearChat(_) => "CLEARCHAT",
    Message::ClearMsg(_) => "CLEARMSG",
    Message::GlobalUserState(_) => "GLOBALUSERSTATE",
    Message::Join(_) => "JOIN",
    Message::Notice(_) => "NOTICE",
    Message::Part(_) => "PART",
    Message::Ping(_) => "PING",
    Message::Pong(_) => "PONG",
    Message::Privmsg(_) => "PRIVMSG",
    Message::Reconnect => "RECONNECT",
    Message::RoomState(_) => "ROOMSTATE",
    Message::UserNotice(_) => "USERNOTICE",
    Message::UserState(_) => "USERSTATE",
    Message::Whisper(_) => "WHISPER",
    Message::Other(_) => "other",
  }
}

pub fn message(m: &Message<'_>) -> View {
  let mut v: View = vec![("variant".into(), variant(m).into())];
  v.extend(match m {
    Message::ClearChat(m) => clear_chat(m),
    Message::ClearMsg(m) => clear_msg(m),
    Message::GlobalUserState(m) => global_user_state(m),
    Message::Join(m) => join(m),
    Message::Notice(m) => notice(m),
    Message::Part(m) => part(m),
    Message::Ping(m) => ping(m),
    Message::Pong(m) => pong(m),
    Message::Privmsg(m) => privmsg(m),
    Message::Reconnect => vec![],
    Message::RoomState(m) => room_state(m),
    Message::UserNotice(m) => user_notice(m),
    Message::UserState(m) => user_state(m),
    Message::Whisper(m) => whisper(m),
    Message::Other(m) => raw_ref(m),
  });
  v
}

/// Full observable parse of a string: raw and typed.
pub fn full(s: &str) -> View {
  let mut v = View::new();
  match IrcMessageRef::parse(s) {
    None => v.push(("parse".into(), "rejected".into())),
    Some(m) => {
      v.extend(raw_ref(&m));
      match m.as_typed() {
        Err(_) => v.push(("typed".into(), "rejected".into())),
        Ok(t) => v.extend(message(&t)),
      }
    }
  }
  v
}
