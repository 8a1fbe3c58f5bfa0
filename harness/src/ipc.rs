//! Stream round trips.
use std::sync::Arc;

use futures::executor::block_on;
use futures::{pin_mut, StreamExt};
use vortex::{Array, Context};
use vortex_error::VortexResult;
use vortex_sampling_compressor::ALL_COMPRESSORS_CONTEXT;
use vortex_serde::io::FuturesAdapter;
use vortex_serde::stream_reader::StreamArrayReader;
use vortex_serde::stream_writer::StreamArrayWriter;

pub fn ctx() -> Arc<Context> {
    ALL_COMPRESSORS_CONTEXT.clone()
}

pub fn write(a: &Array) -> VortexResult<Vec<u8>> {
    block_on(async { Ok(StreamArrayWriter::new(vec![]).write_array(a.clone()).await?.into_inner()) })
}

pub fn read(bytes: Vec<u8>) -> VortexResult<Vec<Array>> {
    block_on(async {
        let rd = StreamArrayReader::try_new(FuturesAdapter(futures::io::Cursor::new(bytes)), ctx())
            .await?
            .load_dtype()
            .await?;
        let s = rd.into_array_stream();
        pin_mut!(s);
        let mut out = vec![];
        while let Some(x) = s.next().await {
            out.push(x?);
        }
        Ok(out)
    })
}

/// The array read back as a view over serialized bytes (arrays that stream as one chunk only).
pub fn roundtrip_one(a: &Array) -> VortexResult<Option<Array>> {
    let mut v = read(write(a)?)?;
    Ok(if v.len() == 1 { v.pop() } else { None })
}
