// This Source Code Form is subject to the terms of the Mozilla Public
// License, v. 2.0. If a copy of the MPL was not distributed with this
// file, You can obtain one at http://mozilla.org/MPL/2.0/.

pub mod bitmap;
pub mod sized_chunk;
pub mod sparse_chunk;
pub mod types;


#[doc(inline)]
pub use crate::bitmap::Bitmap;
#[doc(inline)]
pub use crate::sized_chunk::Chunk;
#[doc(inline)]
pub use crate::sparse_chunk::SparseChunk;
