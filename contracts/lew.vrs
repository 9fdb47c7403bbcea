spec fn out(&self) -> Seq<u8> { written(self.0) }
spec fn takes(&self) -> bool { accepts(self.0) }
spec fn landed(&self) -> Seq<u8> { flushed(self.0) }
