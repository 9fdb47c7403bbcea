spec fn formats(&self) -> Seq<RawDataMeta> { Seq::new(self.1 as nat, |i: int| of_samples::<D>(self.0@.len() as int / self.1 as int)) }
spec fn stored(&self, big: bool) -> Seq<u8> { enc_all::<D>(self.0@, big, self.0@.len() as int) }
spec fn fit(&self) -> bool { self.1 > 0 }
spec fn even(&self) -> bool { D::fixed() }
proof fn law_block(&self) { lemma_enc_all::<D>(self.0@, true, self.0@.len() as int); }
