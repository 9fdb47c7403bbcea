type DataLayout #[derive(Clone, Copy, PartialEq, Eq, Structural)]
type Endianess #[derive(Clone, Copy, PartialEq, Eq, Structural)]
type ChunkSize
type DataBlock
prelude block.vrs
