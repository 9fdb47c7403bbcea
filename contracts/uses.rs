use vstd::std_specs::iter::*;
use vstd::std_specs::option::*;
use vstd::std_specs::result::*;
use std::io::{Read, Seek, Write, BufReader, BufWriter, SeekFrom};
use std::marker::PhantomData;
use std::num::{NonZeroU64, NonZeroUsize};
use std::collections::{BTreeMap, BTreeSet};
use std::ops::Bound;
