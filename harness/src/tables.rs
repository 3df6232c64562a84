//! Independent tables of the names Twitch documents.
use tmi::{Command, Tag};

pub const TAGS: &[(Tag<'static>, &str)] = &[
  (Tag::MsgId, "msg-id"),
  (Tag::Badges, "badges"),
  (Tag::BadgeInfo, "badge-info"),
  (Tag::DisplayName, "display-name"),
  (Tag::EmoteOnly, "emote-only"),
  (Tag::Emotes, "emotes"),
  (Tag::Flags, "flags"),
  (Tag::Id, "id"),
  (Tag::Mod, "mod"),
  (Tag::RoomId, "room-id"),
  (Tag::Subscriber, "subscriber"),
  (Tag::TmiSentTs, "tmi-sent-ts"),
  (Tag::Turbo, "turbo"),
  (Tag::UserId, "user-id"),
  (Tag::UserType, "user-type"),
  (Tag::ClientNonce, "client-nonce"),
  (Tag::FirstMsg, "first-msg"),
  (Tag::ReplyParentDisplayName, "reply-parent-display-name"),
  (Tag::ReplyParentMsgBody, "reply-parent-msg-body"),
  (Tag::ReplyParentMsgId, "reply-parent-msg-id"),
  (Tag::ReplyParentUserId, "reply-parent-user-id"),
  (Tag::ReplyParentUserLogin, "reply-parent-user-login"),
  (Tag::ReplyThreadParentMsgId, "reply-thread-parent-msg-id"),
  (Tag::ReplyThreadParentUserLogin, "reply-thread-parent-user-login"),
  (Tag::FollowersOnly, "followers-only"),
  (Tag::R9K, "r9k"),
  (Tag::Rituals, "rituals"),
  (Tag::Slow, "slow"),
  (Tag::SubsOnly, "subs-only"),
  (Tag::MsgParamCumulativeMonths, "msg-param-cumulative-months"),
  (Tag::MsgParamDisplayName, "msg-param-displayName"),
  (Tag::MsgParamLogin, "msg-param-login"),
  (Tag::MsgParamMonths, "msg-param-months"),
  (Tag::MsgParamPromoGiftTotal, "msg-param-promo-gift-total"),
  (Tag::MsgParamPromoName, "msg-param-promo-name"),
  (Tag::MsgParamRecipientDisplayName, "msg-param-recipient-display-name"),
  (Tag::MsgParamRecipientId, "msg-param-recipient-id"),
  (Tag::MsgParamRecipientUserName, "msg-param-recipient-user-name"),
  (Tag::MsgParamSenderLogin, "msg-param-sender-login"),
  (Tag::MsgParamSenderName, "msg-param-sender-name"),
  (Tag::MsgParamShouldShareStreak, "msg-param-should-share-streak"),
  (Tag::MsgParamStreakMonths, "msg-param-streak-months"),
  (Tag::MsgParamSubPlan, "msg-param-sub-plan"),
  (Tag::MsgParamSubPlanName, "msg-param-sub-plan-name"),
  (Tag::MsgParamViewerCount, "msg-param-viewerCount"),
  (Tag::MsgParamRitualName, "msg-param-ritual-name"),
  (Tag::MsgParamThreshold, "msg-param-threshold"),
  (Tag::MsgParamGiftMonths, "msg-param-gift-months"),
  (Tag::MsgParamColor, "msg-param-color"),
  (Tag::Login, "login"),
  (Tag::Bits, "bits"),
  (Tag::SystemMsg, "system-msg"),
  (Tag::EmoteSets, "emote-sets"),
  (Tag::ThreadId, "thread-id"),
  (Tag::MessageId, "message-id"),
  (Tag::ReturningChatter, "returning-chatter"),
  (Tag::Color, "color"),
  (Tag::Vip, "vip"),
  (Tag::TargetUserId, "target-user-id"),
  (Tag::TargetMsgId, "target-msg-id"),
  (Tag::BanDuration, "ban-duration"),
  (Tag::MsgParamMultimonthDuration, "msg-param-multimonth-duration"),
  (Tag::MsgParamWasGifted, "msg-param-was-gifted"),
  (Tag::MsgParamMultimonthTenure, "msg-param-multimonth-tenure"),
  (Tag::SentTs, "sent-ts"),
  (Tag::MsgParamOriginId, "msg-param-origin-id"),
  (Tag::MsgParamFunString, "msg-param-fun-string"),
  (Tag::MsgParamSenderCount, "msg-param-sender-count"),
  (Tag::MsgParamProfileImageUrl, "msg-param-profileImageURL"),
  (Tag::MsgParamMassGiftCount, "msg-param-mass-gift-count"),
  (Tag::MsgParamGiftMonthBeingRedeemed, "msg-param-gift-month-being-redeemed"),
  (Tag::MsgParamAnonGift, "msg-param-anon-gift"),
  (Tag::CustomRewardId, "custom-reward-id"),
  (Tag::PinnedChatPaidAmount, "pinned-chat-paid-amount"),
  (Tag::PinnedChatPaidCanonicalAmount, "pinned-chat-paid-canonical-amount"),
  (Tag::PinnedChatPaidCurrency, "pinned-chat-paid-currency"),
  (Tag::PinnedChatPaidExponent, "pinned-chat-paid-exponent"),
  (Tag::PinnedChatPaidLevel, "pinned-chat-paid-level"),
  (Tag::PinnedChatPaidIsSystemMessage, "pinned-chat-paid-is-system-message"),
];

pub const COMMANDS: &[(Command<'static>, &str)] = &[
  (Command::Ping, "PING"),
  (Command::Pong, "PONG"),
  (Command::Join, "JOIN"),
  (Command::Part, "PART"),
  (Command::Privmsg, "PRIVMSG"),
  (Command::Whisper, "WHISPER"),
  (Command::ClearChat, "CLEARCHAT"),
  (Command::ClearMsg, "CLEARMSG"),
  (Command::GlobalUserState, "GLOBALUSERSTATE"),
  (Command::Notice, "NOTICE"),
  (Command::Reconnect, "RECONNECT"),
  (Command::RoomState, "ROOMSTATE"),
  (Command::UserNotice, "USERNOTICE"),
  (Command::UserState, "USERSTATE"),
  (Command::Capability, "CAP"),
  (Command::RplWelcome, "001"),
  (Command::RplYourHost, "002"),
  (Command::RplCreated, "003"),
  (Command::RplMyInfo, "004"),
  (Command::RplNames, "353"),
  (Command::RplEndOfNames, "366"),
  (Command::RplMotd, "372"),
  (Command::RplMotdStart, "375"),
  (Command::RplEndOfMotd, "376"),
];
