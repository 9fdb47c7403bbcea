== Index::new
ret r
shim default vs_no_index
spec {{{
    ensures
        known(r) == nothing(),
        live_ok(r.active_objects@, r.objects@),
}}}
at ret {{{
        proof { lemma_no_index(vs_ret); }
}}}

== build_index
ret r
shim seek vs_seek_file
spec {{{
    ensures
        contents(*final(file)) == contents(*old(file)),
        healthy(*final(file)) == healthy(*old(file)),
        healthy(*old(file)) ==> match scan(contents(*old(file)), nothing()) {
            Some(k) => r is Ok && known(r->Ok_0) == k,
            None => r is Err,
        },
        r is Ok ==> live_ok(r->Ok_0.active_objects@, r->Ok_0.objects@) && scanned_ok(known(r->Ok_0)) && index_ok(r->Ok_0),
}}}
at entry {{{
        hide(live_ok);
        hide(known);
        hide(segment_ok);
        hide(with_segment);
        hide(scanned_ok);
        let ghost b = contents(*file);
        let ghost good = healthy(*file);
        proof { lemma_nothing_scanned(); }
}}}
loop 0 plain {{{
        invariant_except_break
            contents(*file) == b,
            healthy(*file) == good,
            b == contents(*old(file)),
            good == healthy(*old(file)),
            live_ok(index.active_objects@, index.objects@),
            scanned_ok(known(index)),
            scan(b, known(index)) == scan(b, nothing()),
            spos(*file) == known(index).next,
            0 <= known(index).next <= u64::MAX,
        ensures
            contents(*file) == b,
            healthy(*file) == good,
            b == contents(*old(file)),
            good == healthy(*old(file)),
            live_ok(index.active_objects@, index.objects@),
            scanned_ok(known(index)),
            good ==> scan(b, nothing()) == Some(known(index)),
        decreases u64::MAX - known(index).next,
}}}
at loop 0 body {{{
            let ghost k = known(index);
            proof { lemma_next(index); }
}}}
at before add_segment 0 {{{
                let ghost s = segment;
                proof { lemma_parsed_plain(b.skip(k.next)); }
}}}
at after add_segment 0 {{{
                proof { lemma_next(index); lemma_next_segment(k, s); lemma_live_len(index); assert(index.active_objects.len() == index.active_objects@.len()); lemma_scanned(k, s); }
}}}
at ret {{{
        proof { lemma_scanned_index(index); }
}}}

== TdmsFile::new
ret r
spec {{{
    ensures
        healthy(file) ==> match scan(contents(file), nothing()) {
            Some(k) => r is Ok && known(r->Ok_0.index) == k,
            None => r is Err,
        },
        r is Ok ==> contents(r->Ok_0.file) == contents(file) && healthy(r->Ok_0.file) == healthy(file) && live_ok(r->Ok_0.index.active_objects@, r->Ok_0.index.objects@) && scanned_ok(known(r->Ok_0.index)) && index_ok(r->Ok_0.index),
}}}
