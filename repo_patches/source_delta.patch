From 98fcf7e8d3de3eb1eea201d7eeaecd4151046863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:13 +0000
Subject: [PATCH 01/16] fix: don't index past the end of an unterminated tag
 section

The scalar tag parser moved `pos` past the end of the line when no space
follows the tags, which made the next slice panic. Report no tags instead,
like the SIMD parser does.
---
 src/irc/tags/scalar.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/irc/tags/scalar.rs b/src/irc/tags/scalar.rs
index 0ef9d8f..3385dc1 100644
--- a/src/irc/tags/scalar.rs
+++ b/src/irc/tags/scalar.rs
@@ -46,6 +46,11 @@ pub(crate) fn parse(src: &str, pos: &mut usize) -> Option<RawTags> {
     offset += 1;
   }
 
+  if offset == src.len() {
+    // no space after the tags, so there is no message either
+    return None;
+  }
+
   *pos += offset + 2; // skip '@' + space
 
   Some(RawTags(tags.to_vec()))
-- 
2.43.0


From b940817d9f295afbf3599456f72d73ec5c132f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:28 +0000
Subject: [PATCH 02/16] fix: don't panic on messages with more than 128 tags

Tags which do not fit into the fixed-size array are kept in a vector.
---
 src/irc/tags.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/irc/tags.rs b/src/irc/tags.rs
index c02837c..b77f39b 100644
--- a/src/irc/tags.rs
+++ b/src/irc/tags.rs
@@ -262,6 +262,8 @@ impl TagPair {
 struct Array<const CAPACITY: usize, T> {
   data: [core::mem::MaybeUninit<T>; CAPACITY],
   len: usize,
+  /// Values pushed after `data` was filled up.
+  spill: Vec<T>,
 }
 
 impl<const CAPACITY: usize, T: Clone + Copy + Default> Array<CAPACITY, T> {
@@ -276,11 +278,17 @@ impl<const CAPACITY: usize, T: Clone + Copy + Default> Array<CAPACITY, T> {
       Self {
         data: array_of_uninit,
         len: 0,
+        spill: Vec::new(),
       }
     }
   }
 
   fn push(&mut self, value: T) {
+    if self.len == CAPACITY {
+      self.spill.push(value);
+      return;
+    }
+
     self.data[self.len].write(value);
     self.len += 1;
   }
@@ -288,7 +296,7 @@ impl<const CAPACITY: usize, T: Clone + Copy + Default> Array<CAPACITY, T> {
   fn to_vec(&self) -> Vec<T> {
     let init = &self.data[..self.len];
     let init = unsafe { core::mem::transmute::<&[core::mem::MaybeUninit<T>], &[T]>(init) };
-    init.to_vec()
+    [init, &self.spill].concat()
   }
 }
 
-- 
2.43.0


From f83a9a28023594ae3a98d91fa37ca5da9022a5be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:34 +0000
Subject: [PATCH 03/16] fix: don't truncate the lengths of tag keys and values
 to 16 bits

---
 src/irc/tags.rs        | 8 ++++----
 src/irc/tags/scalar.rs | 8 ++++----
 src/irc/tags/simd.rs   | 8 ++++----
 3 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/irc/tags.rs b/src/irc/tags.rs
index b77f39b..eec0afb 100644
--- a/src/irc/tags.rs
+++ b/src/irc/tags.rs
@@ -227,11 +227,11 @@ pub(super) struct TagPair {
   key_start: u32,
   // key=value
   //    ^
-  key_end: u16,
+  key_end: u32,
 
   // key=value
   //          ^
-  value_end: u16,
+  value_end: u32,
 }
 
 impl TagPair {
@@ -240,7 +240,7 @@ impl TagPair {
   #[inline]
   pub fn key(&self) -> Span {
     let start = self.key_start;
-    let end = start + self.key_end as u32;
+    let end = start + self.key_end;
     Span { start, end }
   }
 
@@ -248,7 +248,7 @@ impl TagPair {
   //     ^    ^
   #[inline]
   pub fn value(&self) -> Span {
-    let start = self.key_start + self.key_end as u32 + 1;
+    let start = self.key_start + self.key_end + 1;
     let end = start + self.value_end as u32;
     Span { start, end }
   }
diff --git a/src/irc/tags/scalar.rs b/src/irc/tags/scalar.rs
index 3385dc1..1a8f007 100644
--- a/src/irc/tags/scalar.rs
+++ b/src/irc/tags/scalar.rs
@@ -22,8 +22,8 @@ pub(crate) fn parse(src: &str, pos: &mut usize) -> Option<RawTags> {
         if let State::Value { key_start, key_end } = state {
           tags.push(TagPair {
             key_start: key_start as u32 + 1,
-            key_end: (key_end - key_start) as u16,
-            value_end: (offset - (key_end + 1)) as u16,
+            key_end: (key_end - key_start) as u32,
+            value_end: (offset - (key_end + 1)) as u32,
           });
           state = State::Key {
             key_start: offset + 1,
@@ -34,8 +34,8 @@ pub(crate) fn parse(src: &str, pos: &mut usize) -> Option<RawTags> {
         if let State::Value { key_start, key_end } = state {
           tags.push(TagPair {
             key_start: key_start as u32 + 1,
-            key_end: (key_end - key_start) as u16,
-            value_end: (offset - (key_end + 1)) as u16,
+            key_end: (key_end - key_start) as u32,
+            value_end: (offset - (key_end + 1)) as u32,
           });
         }
         break;
diff --git a/src/irc/tags/simd.rs b/src/irc/tags/simd.rs
index b70e887..4d9b390 100644
--- a/src/irc/tags/simd.rs
+++ b/src/irc/tags/simd.rs
@@ -31,9 +31,9 @@ pub(crate) fn parse(src: &str, pos: &mut usize) -> Option<RawTags> {
       tags.push(TagPair {
         // relative to original `src`
         key_start: key_start as u32 + 1,
-        key_end: (key_end - key_start) as u16,
+        key_end: (key_end - key_start) as u32,
         // starts after `=`
-        value_end: (pos - (key_end + 1)) as u16,
+        value_end: (pos - (key_end + 1)) as u32,
       });
     }
   }
@@ -86,9 +86,9 @@ fn parse_chunk(offset: usize, chunk: V, state: &mut State, tags: &mut Array<128,
         tags.push(TagPair {
           // relative to original `src`
           key_start: key_start as u32 + 1,
-          key_end: (key_end - key_start) as u16,
+          key_end: (key_end - key_start) as u32,
           // starts after `=`
-          value_end: (pos - (key_end + 1)) as u16,
+          value_end: (pos - (key_end + 1)) as u32,
         });
       }
     }
-- 
2.43.0


From 2bd457b24313f86047f21b4315cb36a6997a84c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:54 +0000
Subject: [PATCH 04/16] fix: return all params from IrcMessage::text if there
 is no `:`

This is what IrcMessageRef::text does and documents.
---
 src/irc.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/irc.rs b/src/irc.rs
index 3478b40..ab3b9a9 100644
--- a/src/irc.rs
+++ b/src/irc.rs
@@ -261,11 +261,13 @@ impl IrcMessage {
   }
 
   /// Returns the contents of the params after the last `:`.
+  ///
+  /// If `:` is not present, returns all params.
   pub fn text(&self) -> Option<&str> {
     match self.params() {
       Some(params) => match params.find(':') {
         Some(start) => Some(&params[start + 1..]),
-        None => None,
+        None => Some(params),
       },
       None => None,
     }
-- 
2.43.0


From 2c3bbdc2e20f7aaa035175105566353292ebeb4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:00 +0000
Subject: [PATCH 05/16] fix: use the right key for
 Tag::PinnedChatPaidCanonicalAmount

---
 src/irc/tags.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/irc/tags.rs b/src/irc/tags.rs
index eec0afb..118cdb1 100644
--- a/src/irc/tags.rs
+++ b/src/irc/tags.rs
@@ -173,7 +173,7 @@ tags_def! {
   b"pinned-chat-paid-amount"; "pinned-chat-paid-amount" = PinnedChatPaidAmount,
 
   /// The value of the Hype Chat sent by the user. This seems to always be the same as `pinned-chat-paid-amount`.
-  b"pinned-chat-paid-canonical-amount"; "pinned-chat-paid-amount" = PinnedChatPaidCanonicalAmount,
+  b"pinned-chat-paid-canonical-amount"; "pinned-chat-paid-canonical-amount" = PinnedChatPaidCanonicalAmount,
 
   /// The ISO 4217 alphabetic currency code the user has sent the Hype Chat in.
   b"pinned-chat-paid-currency"; "pinned-chat-paid-currency" = PinnedChatPaidCurrency,
-- 
2.43.0


From e2be3cc57b81274f087f33fdaf8c631674b9e086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:06 +0000
Subject: [PATCH 06/16] fix: unescape values the same way everywhere

- a `\\` only applies to the character right after it; it used to stay
  pending through characters which can't be escaped, and turned later ones
  into something else
- maybe_unescape left the escaped comma alone unless there was a `\\` before
  it
---
 src/irc.rs | 10 ++++++++--
 src/lib.rs | 17 ++++++++++-------
 2 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/src/irc.rs b/src/irc.rs
index ab3b9a9..e9a85dc 100644
--- a/src/irc.rs
+++ b/src/irc.rs
@@ -363,9 +363,15 @@ pub fn unescape(value: &str) -> String {
         out.push('\n');
         escape = false;
       }
-      '⸝' => out.push(','),
       '\\' => escape = true,
-      c => out.push(c),
+      '⸝' => {
+        out.push(',');
+        escape = false;
+      }
+      c => {
+        out.push(c);
+        escape = false;
+      }
     }
   }
   out
diff --git a/src/lib.rs b/src/lib.rs
index b9ced7f..9ea0fd9 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -47,11 +47,8 @@ use std::borrow::Cow;
 /// Otherwise, it returns a borrow of the original `value`.
 pub fn maybe_unescape<'a>(value: impl Into<Cow<'a, str>>) -> Cow<'a, str> {
   let mut value: Cow<'_, str> = value.into();
-  for i in 0..value.len() {
-    if value.as_bytes()[i] == b'\\' {
-      value = Cow::Owned(actually_unescape(&value, i));
-      break;
-    }
+  if let Some(i) = value.find(['\\', '⸝']) {
+    value = Cow::Owned(actually_unescape(&value, i));
   }
   value
 }
@@ -85,8 +82,14 @@ fn actually_unescape(input: &str, start: usize) -> String {
         out.push('\n');
         escape = false;
       }
-      '⸝' => out.push(','),
-      c => out.push(c),
+      '⸝' => {
+        out.push(',');
+        escape = false;
+      }
+      c => {
+        out.push(c);
+        escape = false;
+      }
     }
   }
 
-- 
2.43.0


From 8227a4bc7e27e46a43df46adb92ed8f55a753bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:27 +0000
Subject: [PATCH 07/16] fix: don't overflow when converting followers-only
 minutes to seconds

---
 src/msg/room_state.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/msg/room_state.rs b/src/msg/room_state.rs
index 2c5f07d..059a315 100644
--- a/src/msg/room_state.rs
+++ b/src/msg/room_state.rs
@@ -103,7 +103,9 @@ impl<'src> RoomState<'src> {
         .tag(Tag::FollowersOnly)
         .and_then(|v| v.parse().ok())
         .map(|n: i64| match n {
-          n if n > 0 => FollowersOnly::Enabled(Some(Duration::from_secs((n * 60) as u64))),
+          n if n > 0 => {
+            FollowersOnly::Enabled(Some(Duration::from_secs((n as u64).saturating_mul(60))))
+          }
           0 => FollowersOnly::Enabled(None),
           _ => FollowersOnly::Disabled,
         }),
-- 
2.43.0


From 1a2105f38c42fa07e9474403a48c447796e05d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:56 +0000
Subject: [PATCH 08/16] fix: make Subscriber badges with non-numeric months
 deserializable

Such a badge parses as one month. Do the same when deserializing it, instead
of rejecting the whole message.
---
 src/msg.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/msg.rs b/src/msg.rs
index 4ff0e04..e4112e2 100644
--- a/src/msg.rs
+++ b/src/msg.rs
@@ -441,7 +441,7 @@ static_assert_sync!(Message<'_>);
 #[cfg(feature = "serde")]
 mod _serde {
   use super::*;
-  use serde::{de, Deserialize, Deserializer};
+  use serde::{Deserialize, Deserializer};
 
   #[cfg(feature = "serde")]
   impl<'de: 'src, 'src> Deserialize<'de> for Subscriber<'src> {
@@ -459,7 +459,7 @@ mod _serde {
       let t = _T::deserialize(deserializer)?;
       Ok(Subscriber {
         version: t.version,
-        months_n: t.months.parse().map_err(de::Error::custom)?,
+        months_n: t.months.parse().unwrap_or(1),
         months: t.months,
       })
     }
-- 
2.43.0


From b4e860c44dc295fe612308c7ec7b994ad95f4f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:02 +0000
Subject: [PATCH 09/16] fix: keep badges of messages without a badge-info tag

---
 src/msg/global_user_state.rs | 3 +--
 src/msg/privmsg.rs           | 6 ++----
 src/msg/user_notice.rs       | 3 +--
 src/msg/user_state.rs        | 3 +--
 src/msg/whisper.rs           | 3 +--
 5 files changed, 6 insertions(+), 12 deletions(-)

diff --git a/src/msg/global_user_state.rs b/src/msg/global_user_state.rs
index dbe320a..1fb95c8 100644
--- a/src/msg/global_user_state.rs
+++ b/src/msg/global_user_state.rs
@@ -73,8 +73,7 @@ impl<'src> GlobalUserState<'src> {
       name: message.tag(Tag::DisplayName)?.into(),
       badges: message
         .tag(Tag::Badges)
-        .zip(message.tag(Tag::BadgeInfo))
-        .map(|(badges, badge_info)| parse_badges(badges, badge_info))
+        .map(|badges| parse_badges(badges, message.tag(Tag::BadgeInfo).unwrap_or_default()))
         .unwrap_or_default(),
       emote_sets: message
         .tag(Tag::EmoteSets)
diff --git a/src/msg/privmsg.rs b/src/msg/privmsg.rs
index 98b2ca6..ca92cc1 100644
--- a/src/msg/privmsg.rs
+++ b/src/msg/privmsg.rs
@@ -321,8 +321,7 @@ generate_getters! {
   is_action,
   badges: message
     .tag(Tag::Badges)
-    .zip(message.tag(Tag::BadgeInfo))
-    .map(|(badges, badge_info)| parse_badges(badges, badge_info))
+    .map(|badges| parse_badges(badges, message.tag(Tag::BadgeInfo).unwrap_or_default()))
     .unwrap_or_default(),
   color: message
     .tag(Tag::Color)
@@ -386,8 +385,7 @@ impl<'src> Privmsg<'src> {
     let text = text.into();
     let badges = message
       .tag(Tag::Badges)
-      .zip(message.tag(Tag::BadgeInfo))
-      .map(|(badges, badge_info)| parse_badges(badges, badge_info))
+      .map(|badges| parse_badges(badges, message.tag(Tag::BadgeInfo).unwrap_or_default()))
       .unwrap_or_default();
     let color = message
       .tag(Tag::Color)
diff --git a/src/msg/user_notice.rs b/src/msg/user_notice.rs
index 316a0ee..81d2db0 100644
--- a/src/msg/user_notice.rs
+++ b/src/msg/user_notice.rs
@@ -601,8 +601,7 @@ impl<'src> UserNotice<'src> {
       event_id: event_id.into(),
       badges: message
         .tag(Tag::Badges)
-        .zip(message.tag(Tag::BadgeInfo))
-        .map(|(badges, badge_info)| parse_badges(badges, badge_info))
+        .map(|badges| parse_badges(badges, message.tag(Tag::BadgeInfo).unwrap_or_default()))
         .unwrap_or_default(),
       emotes: message.tag(Tag::Emotes).unwrap_or_default().into(),
       color: message
diff --git a/src/msg/user_state.rs b/src/msg/user_state.rs
index 69f8c99..3cbb544 100644
--- a/src/msg/user_state.rs
+++ b/src/msg/user_state.rs
@@ -76,8 +76,7 @@ impl<'src> UserState<'src> {
       user_name: message.tag(Tag::DisplayName)?.into(),
       badges: message
         .tag(Tag::Badges)
-        .zip(message.tag(Tag::BadgeInfo))
-        .map(|(badges, badge_info)| parse_badges(badges, badge_info))
+        .map(|badges| parse_badges(badges, message.tag(Tag::BadgeInfo).unwrap_or_default()))
         .unwrap_or_default(),
       emote_sets: message
         .tag(Tag::EmoteSets)
diff --git a/src/msg/whisper.rs b/src/msg/whisper.rs
index 1df8148..441e66a 100644
--- a/src/msg/whisper.rs
+++ b/src/msg/whisper.rs
@@ -83,8 +83,7 @@ impl<'src> Whisper<'src> {
         .map(|v| v.into()),
       badges: message
         .tag(Tag::Badges)
-        .zip(message.tag(Tag::BadgeInfo))
-        .map(|(badges, badge_info)| parse_badges(badges, badge_info))
+        .map(|badges| parse_badges(badges, message.tag(Tag::BadgeInfo).unwrap_or_default()))
         .unwrap_or_default(),
       emotes: message.tag(Tag::Emotes).unwrap_or_default().into(),
     })
-- 
2.43.0


From b191f70f4caec4e2080fc991f39bc3dae3c652f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:17 +0000
Subject: [PATCH 10/16] fix: unescape the name of a sub gift promotion

---
 src/msg/user_notice.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/msg/user_notice.rs b/src/msg/user_notice.rs
index 81d2db0..5eabfc1 100644
--- a/src/msg/user_notice.rs
+++ b/src/msg/user_notice.rs
@@ -450,7 +450,7 @@ fn parse_promotion<'src>(message: &IrcMessageRef<'src>) -> Option<SubGiftPromo<'
   ) {
     (Some(total_gifts), Some(promo_name)) => Some(SubGiftPromo {
       total_gifts,
-      promo_name: promo_name.into(),
+      promo_name: maybe_unescape(promo_name),
     }),
     _ => None,
   }
-- 
2.43.0


From 96ba5db5f490a45b7a99d54124157613f97eb8ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:23 +0000
Subject: [PATCH 11/16] fix: unescape the display name of the gifter in
 GiftPaidUpgrade

---
 src/msg/user_notice.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/msg/user_notice.rs b/src/msg/user_notice.rs
index 5eabfc1..4788ce1 100644
--- a/src/msg/user_notice.rs
+++ b/src/msg/user_notice.rs
@@ -544,7 +544,7 @@ impl<'src> UserNotice<'src> {
       "giftpaidupgrade" => (
         Event::GiftPaidUpgrade(GiftPaidUpgrade {
           gifter_login: message.tag(Tag::MsgParamSenderLogin)?.into(),
-          gifter_name: message.tag(Tag::MsgParamSenderName)?.into(),
+          gifter_name: maybe_unescape(message.tag(Tag::MsgParamSenderName)?),
           promotion: parse_promotion(&message),
         }),
         false,
-- 
2.43.0


From fe6dcc066dee03ea7868d691510678819a690a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:29 +0000
Subject: [PATCH 12/16] fix: unescape the display name in UserState

---
 src/msg/user_state.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/msg/user_state.rs b/src/msg/user_state.rs
index 3cbb544..67861b8 100644
--- a/src/msg/user_state.rs
+++ b/src/msg/user_state.rs
@@ -5,7 +5,9 @@
 //!
 //! For example, [`UserState::badges`] may be different from [`GlobalUserState::badges`][crate::msg::global_user_state::GlobalUserState::badges].
 
-use super::{is_not_empty, maybe_clone, parse_badges, split_comma, Badge, MessageParseError};
+use super::{
+  is_not_empty, maybe_clone, maybe_unescape, parse_badges, split_comma, Badge, MessageParseError,
+};
 use crate::irc::{Command, IrcMessageRef, Tag};
 use std::borrow::Cow;
 
@@ -73,7 +75,7 @@ impl<'src> UserState<'src> {
 
     Some(UserState {
       channel: message.channel()?.into(),
-      user_name: message.tag(Tag::DisplayName)?.into(),
+      user_name: maybe_unescape(message.tag(Tag::DisplayName)?),
       badges: message
         .tag(Tag::Badges)
         .map(|badges| parse_badges(badges, message.tag(Tag::BadgeInfo).unwrap_or_default()))
-- 
2.43.0


From 50085e0aaee010cb519ba63abda8fe2dd4972959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:31 +0000
Subject: [PATCH 13/16] fix: do not repeat an unsent handshake on the next
 connection

---
 src/client.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/client.rs b/src/client.rs
index ed0421f..e450c9b 100644
--- a/src/client.rs
+++ b/src/client.rs
@@ -321,6 +321,9 @@ impl Client {
   async fn handshake(&mut self) -> Result<(), ConnectError> {
     trace!("performing handshake");
 
+    // an earlier handshake may have failed, or been cancelled, before it was sent
+    self.scratch.clear();
+
     let credentials = &self.config.credentials;
     const CAP: &str = "twitch.tv/commands twitch.tv/tags twitch.tv/membership";
     trace!("CAP REQ {CAP:?}; NICK {:?}; PASS ***", credentials.login);
-- 
2.43.0


From 5610c4251f1887273c17f1b924fc4c07e9c7d931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:31 +0000
Subject: [PATCH 14/16] fix: flush messages after writing them

---
 src/client/write.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/client/write.rs b/src/client/write.rs
index 502b7ff..f6b4602 100644
--- a/src/client/write.rs
+++ b/src/client/write.rs
@@ -85,6 +85,7 @@ impl Client {
     let RawMessage { data } = s.try_into()?;
     trace!(data, "sending message");
     self.writer.write_all(data.as_bytes()).await?;
+    self.writer.flush().await?;
     Ok(())
   }
 
-- 
2.43.0


From 3ed93bc12f4078abc32d5fedffbf28760d797139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:31 +0000
Subject: [PATCH 15/16] fix: a connection reset and a broken pipe are
 disconnects

---
 src/client/read.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/client/read.rs b/src/client/read.rs
index 9b2e59a..b133941 100644
--- a/src/client/read.rs
+++ b/src/client/read.rs
@@ -42,7 +42,11 @@ impl RecvError {
       RecvError::Io(e)
         if matches!(
           e.kind(),
-          io::ErrorKind::UnexpectedEof | io::ErrorKind::ConnectionAborted | io::ErrorKind::TimedOut
+          io::ErrorKind::UnexpectedEof
+            | io::ErrorKind::ConnectionReset
+            | io::ErrorKind::ConnectionAborted
+            | io::ErrorKind::BrokenPipe
+            | io::ErrorKind::TimedOut
         ) =>
       {
         true
-- 
2.43.0


From 474a541575640cbda3f885f50079c83b440f2791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:43 +0000
Subject: [PATCH 16/16] fix: escape the values of sent tags

---
 src/client/write.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/client/write.rs b/src/client/write.rs
index f6b4602..1f2ffba 100644
--- a/src/client/write.rs
+++ b/src/client/write.rs
@@ -1,7 +1,7 @@
 use super::{conn, Client};
 use crate::common::JoinIter;
 use std::convert::Infallible;
-use std::fmt::Display;
+use std::fmt::{Display, Write as _};
 use tokio::io;
 use tokio::io::{AsyncWriteExt, WriteHalf};
 
@@ -23,8 +23,18 @@ struct Tag<'a> {
 impl<'a> std::fmt::Display for Tag<'a> {
   fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
     let Self { key, value } = self;
-    // TODO: handle escaping
-    write!(f, "{key}={value}")
+    write!(f, "{key}=")?;
+    for c in value.chars() {
+      match c {
+        ';' => f.write_str("\\:")?,
+        ' ' => f.write_str("\\s")?,
+        '\\' => f.write_str("\\\\")?,
+        '\r' => f.write_str("\\r")?,
+        '\n' => f.write_str("\\n")?,
+        c => f.write_char(c)?,
+      }
+    }
+    Ok(())
   }
 }
 
-- 
2.43.0

