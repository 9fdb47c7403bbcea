spec fn bytes(&self) -> Seq<u8> { contents(self.0) }
spec fn pos(&self) -> int { spos(self.0) }
spec fn good(&self) -> bool { healthy(self.0) }
spec fn big() -> bool { true }
proof fn law_good(&self) {}
