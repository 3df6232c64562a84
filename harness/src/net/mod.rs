//! The client half: properties of `tmi::Client` decided over the simulated
//! network of `sim`.
mod handshake;
mod many;
mod session;
pub mod sim;
mod time;
mod upkeep;

use crate::engine::{CaseResult, Ctx, Gen};
use crate::gen;
use crate::props::{s, Prop};
use sim::{Logs, Sizes, Step, World};
use std::future::Future;
use std::sync::Arc;
use std::time::Duration;
use tmi::client::{Client, ConnectError};
use tmi::Credentials;

/// Must run before anything else: where the client finds its trust anchors.
pub fn init() {
  std::env::set_var("SSL_CERT_FILE", concat!(env!("CARGO_MANIFEST_DIR"), "/certs/roots.pem"));
  std::env::remove_var("SSL_CERT_DIR");
  handshake::capture::install();
}

pub fn props() -> Vec<Prop> {
  vec![
    Prop {
      id: "C23",
      rule: "1 to 6 sends of any kind (repeated ones among them) with generated channels, texts, ids and nonces, set in any order and once or twice, over TLS; every line the server received against the expected one. Non-trivial: every case.",
      streams: vec![s("sends", 1, |g, ctx| logged(g, ctx, session::c23))],
    },
    Prop {
      id: "C24",
      rule: "histories of 1 to 20 sends (empty to 200 KiB; or hundreds of small ones; on some connections up to 66 thousand), refused and abandoned sends, receives and pauses, against a server that stalls, reads in small bites and talks, through sockets with small or large buffers; what arrived before the client was let go, and in all. Non-trivial: the server stalled or read slowly, or a send was refused or abandoned.",
      streams: vec![s("history", 2500, |g, ctx| logged(g, ctx, session::c24)), s("marathon", 1, |g, ctx| logged(g, ctx, session::c24_marathon))],
    },
    Prop {
      id: "C25",
      rule: "1 to 30 lines (or hundreds of short ones; on some connections up to 66 thousand; messages, near-messages, empty, not UTF-8, up to 100 KiB) ended by CR LF or LF, cut into TLS records and packets at generated places, received with generated cancellations and sends in between. Non-trivial: more than one record or packet per case, or a cancelled receive.",
      streams: vec![s("lines", 2500, |g, ctx| logged(g, ctx, session::c25)), s("marathon", 1, |g, ctx| logged(g, ctx, session::c25_marathon))],
    },
    Prop {
      id: "C26",
      rule: "generated logins and tokens (also after attempts in vain; with, without and nearly with the oauth: prefix; none) against servers with valid and invalid certificates; name lookups, connect addresses, TLS server name and the first bytes received. Non-trivial: every case.",
      streams: vec![s("request", 3, |g, ctx| logged(g, ctx, handshake::c26_request)), s("certificates", 1, handshake::c26_certs)],
    },
    Prop {
      id: "C27",
      rule: "generated replies at both stages of the handshake (proper, refusing, unexpected, garbled, closing) in generated fragments, on first connections and reconnects. Non-trivial: every case.",
      streams: vec![s("replies", 1, |g, ctx| logged(g, ctx, handshake::c27))],
    },
    Prop {
      id: "C28",
      rule: "generated backoff settings (0 to unlimited tries, zero to huge delays) and outcomes per attempt (lookup failure, refusal, TLS failure, success), one or two reconnects; virtual times of the lookups. Non-trivial: at least one attempt fails.",
      streams: vec![s("schedule", 1, |g, ctx| logged(g, ctx, time::c28))],
    },
    Prop {
      id: "C29",
      rule: "a history on the first connection, then up to 4 reconnects (in some cases up to 260) that fail, are cancelled at a generated point, are refused, or succeed and are used; transcripts of every connection. Non-trivial: a reconnect was cancelled or had a failing attempt, or the old connection had leftovers.",
      streams: vec![s("reconnects", 1000, |g, ctx| logged(g, ctx, session::c29)), s("marathon", 1, |g, ctx| logged(g, ctx, session::c29_marathon))],
    },
    Prop {
      id: "C30",
      rule: "a generated token, one of every kind of connection outcome, then sends and reconnects, with every tracing event and span at TRACE captured and every error and configuration rendered. Non-trivial: every case.",
      streams: vec![s("outcomes", 1, handshake::c30)],
    },
    Prop {
      id: "C31",
      rule: "generated logins and tokens (any text), anonymous credentials, and connections configured through the builder. Non-trivial: every case.",
      streams: vec![s("credentials", 6, handshake::c31), s("config", 1, |g, ctx| logged(g, ctx, handshake::c31_config))],
    },
    Prop {
      id: "C32",
      rule: "generated histories of get and copy over several bypasses against a toggle. Non-trivial: at least two calls on one of them.",
      streams: vec![s("bypass", 1, session::c32)],
    },
    Prop {
      id: "C34",
      rule: "every error kind as a receive error, and live connections ended by the server in every way after generated traffic. Non-trivial: every case.",
      streams: vec![s("kinds", 1, time::c34_kinds), s("live", 8, |g, ctx| logged(g, ctx, time::c34_live))],
    },
    Prop {
      id: "C36",
      rule: "servers that answer each stage (TCP, TLS, acknowledgement, welcome) after a generated delay, in part, a byte at a time, or never, under generated timeouts, for first connections and reconnects; lookups that take their time; requests that are not read; virtual time and error. Non-trivial: some stage is delayed or missing.",
      streams: vec![s("stages", 24, |g, ctx| logged(g, ctx, time::c36)), s("lookup", 1, time::c36_lookup), s("unread", 1, |g, ctx| logged(g, ctx, time::c36_unread))],
    },
    Prop {
      id: "C39",
      rule: "rounds of generated sends, refused and abandoned sends and receives with ever new texts, 1600 to 2400 of them; reconnects after attempts of every kind, 16 to 23 twice; clients made, used and dropped, 4 twice; what the client's code holds in memory at the half and at the end, under an allocator that keeps account, and which connections are open. Non-trivial: more than one kind of act per round, or reconnects, or clients.",
      streams: vec![s("traffic", 4, upkeep::traffic), s("reconnects", 4, upkeep::reconnects), s("clients", 2, upkeep::clients)],
    },
    Prop {
      id: "C40",
      rule: "2 to 4 clients at a time, each with its own credentials (or anonymous), timeout and backoff, its own history of 1 to 10 sends, refused and abandoned sends, receives, cancelled receives, pauses and reconnects, and its own server, which talks in pieces and does not read for a while; some are turned away. What each receives and what each of its connections got, against that client's own history. Non-trivial: at least two are let in.",
      streams: vec![s("clients", 1, |g, ctx| logged(g, ctx, many::c40))],
    },
  ]
}

/// In some of the cases somebody listens to what the client traces.
fn logged(g: &mut Gen, ctx: &mut Ctx, case: fn(&mut Gen, &mut Ctx) -> CaseResult) -> CaseResult {
  let _logging = g.chance(1, 8).then(handshake::capture::Logging::start);
  ctx.label_if(_logging.is_some(), "everything is traced");
  case(g, ctx)
}

pub const LIMIT: Duration = Duration::from_secs(600 * 86400);

pub const CAP_ACK: &str = ":tmi.twitch.tv CAP * ACK :twitch.tv/commands twitch.tv/tags twitch.tv/membership\r\n";
pub const WELCOME: &str = ":tmi.twitch.tv 001 somebot :Welcome, GLHF!\r\n";

pub fn welcome_steps() -> Vec<Step> {
  vec![Step::Tls, Step::Lines(3), Step::Say(format!("{CAP_ACK}{WELCOME}").into_bytes())]
}

pub fn client() -> impl Future<Output = Result<Client, String>> {
  let f = Client::builder().credentials(Credentials::new("somebot", "secret")).connect();
  async { f.await.map_err(|e| format!("connecting to a proper server fails: {e:?}")) }
}

pub const REQUEST: &[u8] = b"CAP REQ :twitch.tv/commands twitch.tv/tags twitch.tv/membership\r\nPASS oauth:secret\r\nNICK somebot\r\n";

pub fn new_logs() -> Logs {
  Default::default()
}

/// How `len` bytes are cut into pieces, not too many of them.
pub fn sizes(g: &mut Gen, len: usize) -> Sizes {
  let least = len / 300 + 1;
  let v = match g.weighted(&[3, 2, 3, 1, 1]) {
    0 => Sizes::whole(),
    1 => Sizes::new((0..g.range(1, 6)).map(|_| g.range(1, 400)).collect()),
    2 => Sizes::new((0..g.range(1, 8)).map(|_| g.range(1, 40)).collect()),
    3 => Sizes::new(vec![g.range(1, 4)]),
    _ => Sizes::new((0..g.range(1, 4)).map(|_| g.range(1, 17000)).collect()),
  };
  Sizes::new(v.0.into_iter().map(|n| n.max(least)).collect())
}

pub fn show(b: &[u8]) -> String {
  crate::engine::clip(&format!("{:?}", String::from_utf8_lossy(b)), 400)
}

pub fn strip_line(l: &[u8]) -> &[u8] {
  l.strip_suffix(b"\r").unwrap_or(l)
}

pub fn variant(e: &ConnectError) -> &'static str {
  match e {
    ConnectError::Read(_) => "Read",
    ConnectError::Io(_) => "Io",
    ConnectError::Dns(_) => "Dns",
    ConnectError::Tls(_) => "Tls",
    ConnectError::Open(_) => "Open",
    ConnectError::Timeout => "Timeout",
    ConnectError::Welcome(_) => "Welcome",
    ConnectError::Auth => "Auth",
    ConnectError::Notice(_) => "Notice",
  }
}

/// A text that fits on a line.
pub fn line_text(g: &mut Gen) -> String {
  gen::text_of(g, 400, |c| gen::not_nl(c) && c != '\0')
}

pub fn world() -> Arc<World> {
  World::new()
}
