# the writing of segments, by the contracts of what it uses
prelude clones.vrs
prelude adaptors.vrs
prelude iters.vrs
include segments.inc
prelude writing.vrs
trait WriteBlock
assume WriteBlock::data_structure
assume WriteBlock::write
assume WriteBlock::size
prelude emit.vrs
