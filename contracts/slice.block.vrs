spec fn formats(&self) -> Seq<RawDataMeta> { seq![of_samples::<D>((*self)@.len() as int)] }
spec fn stored(&self, big: bool) -> Seq<u8> { enc_all::<D>((*self)@, big, (*self)@.len() as int) }
spec fn fit(&self) -> bool { true }
spec fn even(&self) -> bool { D::fixed() }
proof fn law_block(&self) { lemma_enc_all::<D>((*self)@, true, (*self)@.len() as int); }
