From 5d3027e2197584cbbeb93011ffcc9a84e41b931b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:00 +0000
Subject: [PATCH 01/27] fix: return an error instead of panicking when a read
 Duration overflows

---
 src/error.rs         | 5 +++++
 src/readable_impl.rs | 6 +++++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/error.rs b/src/error.rs
index 480f3ba..1c95853 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -199,6 +199,11 @@ pub fn error_zero_non_zero< T >() -> T where T: From< Error > {
     T::from( Error::new( ErrorKind::ZeroNonZero ) )
 }
 
+#[cold]
+pub fn error_invalid_duration< T >() -> T where T: From< Error > {
+    T::from( Error::new( ErrorKind::InvalidSystemTime ) )
+}
+
 #[cfg(feature = "std")]
 #[cold]
 pub fn error_invalid_system_time< T >() -> T where T: From< Error > {
diff --git a/src/readable_impl.rs b/src/readable_impl.rs
index 032b114..cc625d9 100644
--- a/src/readable_impl.rs
+++ b/src/readable_impl.rs
@@ -562,7 +562,11 @@ impl< 'a, C > Readable< 'a, C > for core::time::Duration where C: Context {
     fn read_from< R: Reader< 'a, C > >( reader: &mut R ) -> Result< Self, C::Error > {
         let secs = reader.read_u64()?;
         let nanos = reader.read_u32()?;
-        Ok( core::time::Duration::new( secs, nanos ) )
+
+        // `Duration::new` panics if carrying the nanoseconds over overflows the seconds.
+        const NANOS_PER_SEC: u32 = 1_000_000_000;
+        let secs = secs.checked_add( (nanos / NANOS_PER_SEC) as u64 ).ok_or_else( crate::error::error_invalid_duration )?;
+        Ok( core::time::Duration::new( secs, nanos % NANOS_PER_SEC ) )
     }
 
     #[inline]
-- 
2.43.0


From 19f5c133dce6dfb4c84c9dcd3b64b42e09f483d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:08 +0000
Subject: [PATCH 02/27] fix: return an error instead of panicking when a read
 chrono DateTime is out of range

---
 src/error.rs      | 6 ++++++
 src/ext_chrono.rs | 2 +-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/error.rs b/src/error.rs
index 1c95853..0722d92 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -204,6 +204,12 @@ pub fn error_invalid_duration< T >() -> T where T: From< Error > {
     T::from( Error::new( ErrorKind::InvalidSystemTime ) )
 }
 
+#[cfg(feature = "chrono")]
+#[cold]
+pub fn error_invalid_date_time< T >() -> T where T: From< Error > {
+    T::from( Error::new( ErrorKind::InvalidSystemTime ) )
+}
+
 #[cfg(feature = "std")]
 #[cold]
 pub fn error_invalid_system_time< T >() -> T where T: From< Error > {
diff --git a/src/ext_chrono.rs b/src/ext_chrono.rs
index 5397a71..93c4e73 100644
--- a/src/ext_chrono.rs
+++ b/src/ext_chrono.rs
@@ -20,7 +20,7 @@ impl< 'a, C > Readable< 'a, C > for DateTime< Utc >
     fn read_from< R: Reader< 'a, C > >( reader: &mut R ) -> Result< Self, C::Error > {
         let seconds = reader.read_i64()?;
         let subsec_nanos = reader.read_u32()?;
-        Ok( Utc.timestamp( seconds, subsec_nanos ) )
+        Utc.timestamp_opt( seconds, subsec_nanos ).single().ok_or_else( crate::error::error_invalid_date_time )
     }
 
     #[inline]
-- 
2.43.0


From 05bd3710c760d4ced8c637b31cfdd86d9e61383e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:39 +0000
Subject: [PATCH 03/27] fix: peek_u64_varint returned the wrong value for
 multi-byte varints

---
 src/varint.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/varint.rs b/src/varint.rs
index 93e7b3c..b3fbda5 100644
--- a/src/varint.rs
+++ b/src/varint.rs
@@ -164,7 +164,19 @@ impl VarInt64 {
         where C: Context,
               R: Reader< 'a, C >
     {
-        impl_read!( reader, peek_u8, peek_bytes )
+        // Every peek starts at the current position, so to see the bytes
+        // which come after the first one we have to peek all of them together.
+        let first_byte = reader.peek_u8()?;
+        let length = (!first_byte).leading_zeros() as usize;
+        let mut buffer = [0; 9];
+        reader.peek_bytes( &mut buffer[ ..length + 1 ] )?;
+
+        let upper_mask = 0b11111111_u64 >> length;
+        let upper_bits = (upper_mask & (first_byte as u64)).wrapping_shl( length as u32 * 8 );
+
+        let mut value = [0; 8];
+        value[ ..length ].copy_from_slice( &buffer[ 1..length + 1 ] );
+        Ok( VarInt64( upper_bits | u64::from_le_bytes( value ) ) )
     }
 }
 
-- 
2.43.0


From 77c84d54763684396673cde436c6acc6ede2769e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:46 +0000
Subject: [PATCH 04/27] fix: correct the inverse zigzag transformation of
 VarInt64

---
 src/varint.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/varint.rs b/src/varint.rs
index b3fbda5..4ee4e1c 100644
--- a/src/varint.rs
+++ b/src/varint.rs
@@ -99,7 +99,7 @@ impl From< VarInt64 > for i64 {
     #[inline]
     fn from( value: VarInt64 ) -> Self {
         let value = value.0;
-        ((value >> 1) ^ (value << 15)) as i64
+        (value >> 1) as i64 ^ -((value & 1) as i64)
     }
 }
 
-- 
2.43.0


From e9ba488194b452c5238d9051b5c190a666f30eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:56 +0000
Subject: [PATCH 05/27] fix: read every element of a Vec of a zero-sized type

---
 src/reader.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/reader.rs b/src/reader.rs
index eb5febd..9f30e12 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -534,6 +534,12 @@ pub trait Reader< 'a, C: Context >: Sized {
             }
 
             T::speedy_convert_slice_endianness( self.endianness(), &mut vec );
+        } else if mem::size_of::< T >() == 0 {
+            // A pointer cannot be used to keep track of zero-sized elements,
+            // which can still be encoded as a non-zero number of bytes.
+            for _ in 0..length {
+                vec.push( self.read_value()? );
+            }
         } else {
             #[inline(never)]
             #[cold]
-- 
2.43.0


From 677d1c0e59a9316a4f7e568f3543548f3ef81773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:35 +0000
Subject: [PATCH 06/27] fix: do not lose or divide by zero on containers of
 zero-sized primitive structs

---
 src/reader.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index 9f30e12..737a912 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -604,7 +604,7 @@ pub trait Reader< 'a, C: Context >: Sized {
         where T: Readable< 'a, C >,
               [T]: ToOwned< Owned = Vec< T > >
     {
-        if T::speedy_is_primitive() && (mem::size_of::< T >() == 1 || !self.endianness().conversion_necessary()) {
+        if T::speedy_is_primitive() && mem::size_of::< T >() != 0 && (mem::size_of::< T >() == 1 || !self.endianness().conversion_necessary()) {
             if let Some( bytes ) = self.read_bytes_borrowed( length * mem::size_of::< T >() ) {
                 let bytes = bytes?;
                 assert_eq!( bytes.len(), length * mem::size_of::< T >() );
@@ -648,7 +648,7 @@ pub trait Reader< 'a, C: Context >: Sized {
         where U: FromIterator< T >,
               T: Readable< 'a, C >
     {
-        if T::speedy_is_primitive() && (mem::size_of::< T >() == 1 || !self.endianness().conversion_necessary()) {
+        if T::speedy_is_primitive() && mem::size_of::< T >() != 0 && (mem::size_of::< T >() == 1 || !self.endianness().conversion_necessary()) {
             let bytesize = length.checked_mul( core::mem::size_of::< T >() ).ok_or_else( || {
                 crate::error::error_too_big_usize_for_this_architecture() // TODO: Use different error maybe?
             })?;
@@ -674,7 +674,7 @@ pub trait Reader< 'a, C: Context >: Sized {
         #[repr(packed)]
         struct Pair< K, V >( K, V );
 
-        if K::speedy_is_primitive() && V::speedy_is_primitive() && ((mem::size_of::< K >() == 1 && mem::size_of::< V >() == 1) || !self.endianness().conversion_necessary()) {
+        if K::speedy_is_primitive() && V::speedy_is_primitive() && mem::size_of::< Pair< K, V > >() != 0 && ((mem::size_of::< K >() == 1 && mem::size_of::< V >() == 1) || !self.endianness().conversion_necessary()) {
             let bytesize = length.checked_mul( core::mem::size_of::< Pair< K, V > >() ).ok_or_else( || {
                 crate::error::error_too_big_usize_for_this_architecture()
             })?;
-- 
2.43.0


From 701d3acc187b96d916a06c549f23c8d916fa3f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:43 +0000
Subject: [PATCH 07/27] fix: check for overflow when calculating the byte size
 in read_cow

---
 src/reader.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index 737a912..f369d46 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -605,9 +605,10 @@ pub trait Reader< 'a, C: Context >: Sized {
               [T]: ToOwned< Owned = Vec< T > >
     {
         if T::speedy_is_primitive() && mem::size_of::< T >() != 0 && (mem::size_of::< T >() == 1 || !self.endianness().conversion_necessary()) {
-            if let Some( bytes ) = self.read_bytes_borrowed( length * mem::size_of::< T >() ) {
+            let bytesize = length.checked_mul( mem::size_of::< T >() ).ok_or_else( error_end_of_input )?;
+            if let Some( bytes ) = self.read_bytes_borrowed( bytesize ) {
                 let bytes = bytes?;
-                assert_eq!( bytes.len(), length * mem::size_of::< T >() );
+                assert_eq!( bytes.len(), bytesize );
 
                 if mem::align_of::< T >() == 1 || bytes.as_ptr() as usize % mem::align_of::< T >() == 0 {
                     let slice = unsafe { T::speedy_slice_from_bytes( bytes ) };
-- 
2.43.0


From 85fe6408f72335d32385814cd64c413ec327c256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:13 +0000
Subject: [PATCH 08/27] fix: do not panic nor abort when a Vec with a bogus
 length cannot be allocated

---
 src/reader.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index f369d46..aafdad7 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -526,10 +526,14 @@ pub trait Reader< 'a, C: Context >: Sized {
             return Err( error_end_of_input() );
         }
 
-        let mut vec = Vec::with_capacity( length );
+        // The length might be bogus, so do not panic nor abort if this much memory cannot be allocated.
+        let mut vec = Vec::new();
+        if vec.try_reserve_exact( length ).is_err() {
+            return Err( error_end_of_input() );
+        }
         if T::speedy_is_primitive() {
             unsafe {
-                self.read_bytes_into_ptr( vec.as_mut_ptr() as *mut u8, vec.capacity() * core::mem::size_of::< T >() )?;
+                self.read_bytes_into_ptr( vec.as_mut_ptr() as *mut u8, length * core::mem::size_of::< T >() )?;
                 vec.set_len( length );
             }
 
-- 
2.43.0


From 1847699dd3f37b13981cc13f1f7edaaad515b189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:59 +0000
Subject: [PATCH 09/27] fix: report errors from the final flush in
 write_to_file

---
 src/writable.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/writable.rs b/src/writable.rs
index 716fce8..d2e1ca5 100644
--- a/src/writable.rs
+++ b/src/writable.rs
@@ -236,8 +236,14 @@ pub trait Writable< C: Context > {
             let error = Error::from_io_error( error );
             <C::Error as From< Error >>::from( error )
         })?;
-        let stream = io::BufWriter::new( stream );
-        self.write_to_stream_with_ctx( context, stream )
+        let mut stream = io::BufWriter::new( stream );
+        self.write_to_stream_with_ctx( context, &mut stream )?;
+
+        // Flush manually, since any errors are ignored when this is done on drop.
+        stream.flush().map_err( |error| {
+            let error = Error::from_io_error( error );
+            <C::Error as From< Error >>::from( error )
+        })
     }
 
     #[inline]
-- 
2.43.0


From 86983822db5a91a29fcc7e277039ba0020297457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:09 +0000
Subject: [PATCH 10/27] fix: retry interrupted reads when reading from a stream
 into the internal buffer

---
 src/readable.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/readable.rs b/src/readable.rs
index d6d130a..b78669b 100644
--- a/src/readable.rs
+++ b/src/readable.rs
@@ -296,6 +296,17 @@ struct StreamReader< C: Context, S: Read > {
     is_buffering: bool
 }
 
+#[cfg(feature = "std")]
+#[inline]
+fn read_uninterrupted< S: Read >( reader: &mut S, buffer: &mut [u8] ) -> std::io::Result< usize > {
+    loop {
+        match reader.read( buffer ) {
+            Err( ref error ) if error.kind() == std::io::ErrorKind::Interrupted => continue,
+            result => return result
+        }
+    }
+}
+
 #[cfg(feature = "std")]
 impl< 'a, C, S > StreamReader< C, S > where C: Context, S: Read {
     #[inline(never)]
@@ -304,7 +315,7 @@ impl< 'a, C, S > StreamReader< C, S > where C: Context, S: Read {
             let reader = &mut self.reader;
             while self.buffer.len() < self.buffer.capacity() {
                 let bytes_written = self.buffer.try_append_with( self.buffer.capacity() - self.buffer.len(), |chunk| {
-                    reader.read( chunk )
+                    read_uninterrupted( reader, chunk )
                 }).map_err( |error| {
                     let error = Error::from_io_error( error );
                     <C::Error as From< Error >>::from( error )
@@ -363,7 +374,7 @@ impl< 'a, C: Context, S: Read > Reader< 'a, C > for StreamReader< C, S > {
                 }
 
                 let bytes_written = self.buffer.try_append_with( chunk_size, |chunk| {
-                    reader.read( chunk )
+                    read_uninterrupted( reader, chunk )
                 }).map_err( |error| {
                     let error = Error::from_io_error( error );
                     <C::Error as From< Error >>::from( error )
-- 
2.43.0


From bb484bc2cfc3c4517f3ae1d6682bd7ddb6fe84d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:04 +0000
Subject: [PATCH 11/27] fix: return an error instead of creating a misaligned
 slice when borrowing from the input

---
 speedy-derive/src/lib.rs     |  6 +++---
 src/error.rs                 |  7 +++++++
 src/private.rs               | 17 +++++++++++++++++
 src/readable_unsized_impl.rs | 18 +++++-------------
 4 files changed, 32 insertions(+), 16 deletions(-)

diff --git a/speedy-derive/src/lib.rs b/speedy-derive/src/lib.rs
index 6dd2f61..214ea3e 100644
--- a/speedy-derive/src/lib.rs
+++ b/speedy-derive/src/lib.rs
@@ -1580,14 +1580,14 @@ fn read_field_body( field: &Field ) -> TokenStream {
                             .ok_or_else( speedy::private::error_unsized )
                             .and_then( |error| error )
                     })
-                    .map( |slice| unsafe { core::slice::from_raw_parts( slice.as_ptr() as *const #inner_ty, _length_ ) } )
+                    .and_then( |slice| unsafe { speedy::private::cast_slice( slice, _length_ ) } )
             }}
         } else {
             inner = quote! {{
                 _reader_.read_bytes_borrowed_until_eof()
                     .ok_or_else( speedy::private::error_unsized )
-                    .map( |slice| unsafe {
-                        core::slice::from_raw_parts( slice.as_ptr() as *const #inner_ty, slice.len() / core::mem::size_of::< #inner_ty >() )
+                    .and_then( |slice| unsafe {
+                        speedy::private::cast_slice( slice, slice.len() / core::mem::size_of::< #inner_ty >() )
                     })
             }}
         }
diff --git a/src/error.rs b/src/error.rs
index 0722d92..1876ee1 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -32,6 +32,7 @@ pub enum ErrorKind {
 
     Unsized,
     EndiannessMismatch,
+    Misaligned,
 
     #[cfg(feature = "std")]
     IoError( std::io::Error )
@@ -103,6 +104,7 @@ impl core::fmt::Display for Error {
             ErrorKind::ExpectedConstant { constant } => write!( fmt, "expected a predefined {} bytes(s) long constant", constant.len() ),
             ErrorKind::Unsized => write!( fmt, "type is unsized hence requires zero-copy deserialization; use `read_from_buffer` or similar to deserialize it" ),
             ErrorKind::EndiannessMismatch => write!( fmt, "endianness mismatch" ),
+            ErrorKind::Misaligned => write!( fmt, "cannot borrow from the input as it is not sufficiently aligned" ),
 
             #[cfg(feature = "std")]
             ErrorKind::IoError( ref error ) => write!( fmt, "{}", error ),
@@ -231,3 +233,8 @@ pub fn error_unsized< T >() -> T where T: From< Error > {
 pub fn error_endianness_mismatch< T >() -> T where T: From< Error > {
     T::from( Error::new( ErrorKind::EndiannessMismatch ) )
 }
+
+#[cold]
+pub fn error_misaligned< T >() -> T where T: From< Error > {
+    T::from( Error::new( ErrorKind::Misaligned ) )
+}
diff --git a/src/private.rs b/src/private.rs
index 40076e6..66f21c8 100644
--- a/src/private.rs
+++ b/src/private.rs
@@ -24,6 +24,7 @@ pub use crate::error::{
     error_invalid_str_utf8,
     error_unsized,
     error_endianness_mismatch,
+    error_misaligned,
 
     get_error_kind,
 };
@@ -31,6 +32,22 @@ pub use crate::utils::ZeroCopyable;
 
 pub use memoffset::offset_of;
 
+/// Casts a slice of bytes which is at least `length` elements long into a slice of those elements.
+///
+/// Any bit pattern must be valid for `T`; returns an error if the bytes are not sufficiently aligned.
+#[inline]
+pub unsafe fn cast_slice< T, E >( bytes: &[u8], length: usize ) -> Result< &[T], E > where E: From< crate::Error > {
+    if bytes.as_ptr() as usize % core::mem::align_of::< T >() != 0 {
+        if length == 0 {
+            return Ok( &[] );
+        }
+
+        return Err( error_misaligned() );
+    }
+
+    Ok( unsafe { core::slice::from_raw_parts( bytes.as_ptr() as *const T, length ) } )
+}
+
 #[cfg(feature = "alloc")]
 #[inline]
 pub fn vec_to_string< E >( bytes: Vec< u8 > ) -> Result< String, E > where E: From< Error > {
diff --git a/src/readable_unsized_impl.rs b/src/readable_unsized_impl.rs
index 1285686..0c6d9c1 100644
--- a/src/readable_unsized_impl.rs
+++ b/src/readable_unsized_impl.rs
@@ -42,10 +42,9 @@ impl< 'a, C: Context, T > Readable< 'a, C > for &'a [T] where T: crate::utils::Z
         let length = crate::private::read_length( reader )?;
         let bytelength = length.checked_mul( core::mem::size_of::< T >() ).ok_or_else( crate::error::error_out_of_range_length )?;
         let bytes = reader.read_bytes_borrowed( bytelength ).ok_or_else( crate::error::error_unsized )??;
-        let slice = unsafe {
-            core::slice::from_raw_parts( bytes.as_ptr() as *const T, length )
-        };
-        Ok( slice )
+        unsafe {
+            crate::private::cast_slice( bytes, length )
+        }
     }
 
     #[inline]
@@ -54,13 +53,6 @@ impl< 'a, C: Context, T > Readable< 'a, C > for &'a [T] where T: crate::utils::Z
     }
 }
 
-#[inline(always)]
-unsafe fn cast_slice< T, const N: usize >( slice: &[u8] ) -> &[T; N] {
-    unsafe {
-        &*(slice.as_ptr() as *const [T; N])
-    }
-}
-
 impl< 'a, C: Context, T, const N: usize > Readable< 'a, C > for &'a [T; N] where T: crate::utils::ZeroCopyable< C, T > {
     #[inline]
     fn read_from< R: Reader< 'a, C > >( reader: &mut R ) -> Result< Self, C::Error > {
@@ -69,8 +61,8 @@ impl< 'a, C: Context, T, const N: usize > Readable< 'a, C > for &'a [T; N] where
         }
 
         let bytes = reader.read_bytes_borrowed( core::mem::size_of::< T >() * N ).ok_or_else( crate::error::error_unsized )??;
-        let slice = unsafe { cast_slice( bytes ) };
-        Ok( slice )
+        let slice = unsafe { crate::private::cast_slice( bytes, N )? };
+        Ok( unsafe { &*(slice.as_ptr() as *const [T; N]) } )
     }
 
     #[inline]
-- 
2.43.0


From 92847e26969d5521aa6ced9a3a39dbd29a618f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:25 +0000
Subject: [PATCH 12/27] fix: do not overestimate the minimum size of enums with
 peek_tag

---
 speedy-derive/src/lib.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/speedy-derive/src/lib.rs b/speedy-derive/src/lib.rs
index 214ea3e..489220f 100644
--- a/speedy-derive/src/lib.rs
+++ b/speedy-derive/src/lib.rs
@@ -2251,6 +2251,7 @@ fn impl_readable( input: syn::DeriveInput ) -> Result< TokenStream, syn::Error >
             let enumeration = Enum::new( &name, &input.attrs, &variants )?;
             let mut variant_matches = Vec::with_capacity( variants.len() );
             let mut variant_minimum_sizes = Vec::with_capacity( variants.len() );
+            let mut peeked_variant_minimum_sizes = Vec::with_capacity( variants.len() );
             for variant in enumeration.variants {
                 let tag = variant.tag_expr;
                 let unqualified_ident = &variant.ident;
@@ -2263,6 +2264,14 @@ fn impl_readable( input: syn::DeriveInput ) -> Result< TokenStream, syn::Error >
                     }
                 });
 
+                peeked_variant_minimum_sizes.push(
+                    if variant.structure.is_guaranteed_non_recursive() {
+                        minimum_bytes.clone()
+                    } else {
+                        quote! { 0 }
+                    }
+                );
+
                 if variant.structure.kind != StructKind::Unit {
                     if variant.structure.is_guaranteed_non_recursive() {
                         variant_minimum_sizes.push( minimum_bytes );
@@ -2307,7 +2316,12 @@ fn impl_readable( input: syn::DeriveInput ) -> Result< TokenStream, syn::Error >
                 if !enumeration.peek_tag {
                     quote! { (#minimum_bytes_needed_body) + #tag_size }
                 } else {
-                    quote! { core::cmp::max( #minimum_bytes_needed_body, #tag_size ) }
+                    // The tag itself is not a part of the value, so the value might be smaller than the tag.
+                    quote! {{
+                        let mut out = #tag_size;
+                        #(out = core::cmp::min( out, #peeked_variant_minimum_sizes );)*
+                        out
+                    }}
                 };
 
             (reader_body, minimum_bytes_needed_body, quote! {}, quote! {})
-- 
2.43.0


From 085b1dd2d884649b9ded40db63e92944c363092d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:56 +0000
Subject: [PATCH 13/27] fix: implement endianness flipping for transparent
 structs nested in other structs

---
 speedy-derive/src/lib.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/speedy-derive/src/lib.rs b/speedy-derive/src/lib.rs
index 489220f..0bff16c 100644
--- a/speedy-derive/src/lib.rs
+++ b/speedy-derive/src/lib.rs
@@ -2177,6 +2177,13 @@ fn impl_readable( input: syn::DeriveInput ) -> Result< TokenStream, syn::Error >
                         core::slice::from_raw_parts( slice.as_ptr() as *const Self, slice.len() )
                     }
 
+                    #[inline(always)]
+                    unsafe fn speedy_flip_endianness( itself: *mut Self ) {
+                        unsafe {
+                            <#field_ty as speedy::Readable< 'a_, C_ >>::speedy_flip_endianness( itself as *mut #field_ty );
+                        }
+                    }
+
                     #[inline(always)]
                     fn speedy_convert_slice_endianness( endianness: speedy::Endianness, slice: &mut [Self] ) {
                         unsafe {
-- 
2.43.0


From b0a7142755fa32176ccb22361ccc440823407fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:04 +0000
Subject: [PATCH 14/27] fix: respect field attributes on transparent and packed
 structs when copying them in bulk

---
 speedy-derive/src/lib.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/speedy-derive/src/lib.rs b/speedy-derive/src/lib.rs
index 0bff16c..1c37ffd 100644
--- a/speedy-derive/src/lib.rs
+++ b/speedy-derive/src/lib.rs
@@ -2117,12 +2117,6 @@ struct IsPrimitiveResult {
 }
 
 fn check_is_primitive( input: &syn::DeriveInput, structure: &Struct, attrs: &ToplevelStructAttributes ) -> IsPrimitiveResult {
-    let is_ty_packed = is_packed( &input.attrs );
-    let is_ty_transparent = structure.fields.len() == 1 && is_transparent( &input.attrs );
-    let is_ty_c = is_c( &input.attrs );
-    let is_ty_simple = structure.fields.iter().all( |field| field.is_simple() );
-    let check_order = !is_ty_transparent && !is_ty_packed && !is_ty_c;
-
     let mut is_forced = false;
     match attrs.is_primitive {
         None => {},
@@ -2131,13 +2125,22 @@ fn check_is_primitive( input: &syn::DeriveInput, structure: &Struct, attrs: &Top
         }
     }
 
+    // If any of the fields has an attribute which changes how it's serialized then
+    // it cannot be simply copied from memory.
     let can_be_primitive = is_forced || structure.fields.iter().all( |field| field.can_be_primitive() );
+
+    let is_ty_packed = is_packed( &input.attrs );
+    let is_ty_transparent = can_be_primitive && structure.fields.len() == 1 && is_transparent( &input.attrs );
+    let is_ty_c = is_c( &input.attrs );
+    let is_ty_simple = structure.fields.iter().all( |field| field.is_simple() );
+    let check_order = !is_ty_transparent && !is_ty_packed && !is_ty_c;
+
     IsPrimitiveResult {
         is_ty_packed,
         is_ty_transparent,
         is_ty_potentially_primitive: can_be_primitive && (is_forced || is_ty_transparent || is_ty_packed || is_ty_c || is_ty_simple || (!uses_generics( &input ) && structure.fields.len() <= 4)),
         check_order,
-        impl_zerocopyable: is_ty_packed || is_ty_transparent || is_forced,
+        impl_zerocopyable: can_be_primitive && (is_ty_packed || is_ty_transparent || is_forced),
         is_forced
     }
 }
-- 
2.43.0


From 533bef8c0db15f2e40f322d74f57b9ab4321dbeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:45 +0000
Subject: [PATCH 15/27] fix: default the whole field when the length of an
 Option with default_on_eof is truncated

---
 speedy-derive/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/speedy-derive/src/lib.rs b/speedy-derive/src/lib.rs
index 1c37ffd..4e729cb 100644
--- a/speedy-derive/src/lib.rs
+++ b/speedy-derive/src/lib.rs
@@ -1423,7 +1423,8 @@ fn read_field_body( field: &Field ) -> TokenStream {
                 speedy::private::#read_length_fn( _reader_ )
             };
 
-            if field.default_on_eof {
+            // For an `Option` the whole field has to be defaulted, and not only the length.
+            if field.default_on_eof && matches!( field.ty, Opt::Plain( .. ) ) {
                 Some( default_on_eof_body( body ) )
             } else {
                 Some( quote! { #body? } )
-- 
2.43.0


From 0d27619d1c3edbf86903f57123d7a785815c015d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:28 +0000
Subject: [PATCH 16/27] Add a hook for overriding the stream buffer capacity
 during verification

---
 src/lib.rs      |  6 ++++++
 src/readable.rs |  4 ++++
 src/verif.rs    | 11 +++++++++++
 3 files changed, 21 insertions(+)
 create mode 100644 src/verif.rs

diff --git a/src/lib.rs b/src/lib.rs
index f4136c6..f3bf208 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,5 +1,6 @@
 #![cfg_attr(feature = "external_doc", doc = include_str!("../README.md"))]
 #![forbid(unsafe_op_in_unsafe_fn)]
+#![allow(unexpected_cfgs)] // For `speedy_verif`.
 #![cfg_attr(all(not(test), not(feature = "std")), no_std)]
 
 #[doc(hidden)]
@@ -47,6 +48,11 @@ mod ext_uuid;
 #[doc(hidden)]
 pub mod private;
 
+// Hooks used only when verifying this crate; enabled through `RUSTFLAGS="--cfg speedy_verif"`.
+#[cfg(speedy_verif)]
+#[doc(hidden)]
+pub mod verif;
+
 #[cfg(feature = "speedy-derive")]
 pub use speedy_derive::{Readable, Writable};
 
diff --git a/src/readable.rs b/src/readable.rs
index b78669b..7bc16cc 100644
--- a/src/readable.rs
+++ b/src/readable.rs
@@ -417,6 +417,10 @@ impl< C: Context, S: Read > StreamReader< C, S > {
             0
         };
 
+        // Used for verification only, to make it feasible to explore every possible state of the buffer.
+        #[cfg(speedy_verif)]
+        let capacity = if is_buffering { crate::verif::stream_capacity( capacity ) } else { capacity };
+
         let mut reader = StreamReader {
             context,
             reader,
diff --git a/src/verif.rs b/src/verif.rs
new file mode 100644
index 0000000..6c7a27c
--- /dev/null
+++ b/src/verif.rs
@@ -0,0 +1,11 @@
+use core::sync::atomic::{AtomicUsize, Ordering};
+
+/// Overrides the capacity of the internal buffer used by buffered streams, if not zero.
+pub static STREAM_CAPACITY: AtomicUsize = AtomicUsize::new( 0 );
+
+pub(crate) fn stream_capacity( default: usize ) -> usize {
+    match STREAM_CAPACITY.load( Ordering::Relaxed ) {
+        0 => default,
+        capacity => capacity
+    }
+}
-- 
2.43.0


From 39748ea9b200d057f64ee2a7bd56bb318b4c5fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:51 +0000
Subject: [PATCH 17/27] fix: do not overflow in can_write_at_least when given a
 huge size

---
 src/writable.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/writable.rs b/src/writable.rs
index d2e1ca5..7c14672 100644
--- a/src/writable.rs
+++ b/src/writable.rs
@@ -52,7 +52,7 @@ impl< 'a, C: Context > Writer< C > for BufferCollector< 'a, C > {
 
     #[inline(always)]
     fn can_write_at_least( &self, size: usize ) -> Option< bool > {
-        Some( self.buffer.get( self.position..self.position + size ).is_some() )
+        Some( self.buffer.len() - self.position >= size )
     }
 }
 
-- 
2.43.0


From fe3467523f1770228d0abde7ea2182e93e7001e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:32 +0000
Subject: [PATCH 18/27] fix: only borrow slices of types which are safe to
 borrow in derived types

The derived code cast the input to a slice of any type at all, e.g. a field of
type &[bool], &[char] or &[String] was filled straight from the input.
---
 speedy-derive/src/lib.rs | 28 +++++++++++++++++++++-------
 src/private.rs           |  1 +
 2 files changed, 22 insertions(+), 7 deletions(-)

diff --git a/speedy-derive/src/lib.rs b/speedy-derive/src/lib.rs
index 4e729cb..5f9d071 100644
--- a/speedy-derive/src/lib.rs
+++ b/speedy-derive/src/lib.rs
@@ -283,7 +283,7 @@ fn parse_primitive_ty( ty: &syn::Type ) -> Option< PrimitiveTy > {
     }
 }
 
-fn common_tokens( ast: &syn::DeriveInput, types: &[syn::Type], trait_variant: Trait ) -> (TokenStream, TokenStream, TokenStream) {
+fn common_tokens( ast: &syn::DeriveInput, types: &[syn::Type], zero_copied_types: &[syn::Type], trait_variant: Trait ) -> (TokenStream, TokenStream, TokenStream) {
     let impl_params = {
         let lifetime_params = ast.generics.lifetimes().map( |alpha| quote! { #alpha } );
         let type_params = ast.generics.type_params().map( |ty| { let ty_without_default = TypeParam { default: None, ..ty.clone() }; quote! { #ty_without_default } });
@@ -333,6 +333,10 @@ fn common_tokens( ast: &syn::DeriveInput, types: &[syn::Type], trait_variant: Tr
                 predicates.push( quote! { 'a_: #lifetime } );
                 predicates.push( quote! { #lifetime: 'a_ } );
             }
+
+            for ty in zero_copied_types {
+                predicates.push( quote! { #ty: speedy::private::ZeroCopyable< speedy::private::NativeContext, #ty > } );
+            }
         }
 
         let items = constraints.chain( predicates.into_iter() ).collect_vec();
@@ -805,6 +809,14 @@ impl< 'a > Field< 'a > {
         }
     }
 
+    /// The type whose slice will be borrowed directly from the input, if any.
+    fn zero_copied_type( &self ) -> Option< syn::Type > {
+        match self.ty.inner() {
+            Ty::RefSlice( _, inner_ty ) if !self.skip => Some( inner_ty.clone() ),
+            _ => None
+        }
+    }
+
     fn is_guaranteed_non_recursive( &self ) -> bool {
         is_guaranteed_non_recursive( &self.raw_ty )
     }
@@ -1678,7 +1690,7 @@ fn read_field_body( field: &Field ) -> TokenStream {
     }
 }
 
-fn readable_body< 'a >( types: &mut Vec< syn::Type >, st: &Struct< 'a > ) -> (TokenStream, TokenStream, TokenStream) {
+fn readable_body< 'a >( types: &mut Vec< syn::Type >, zero_copied_types: &mut Vec< syn::Type >, st: &Struct< 'a > ) -> (TokenStream, TokenStream, TokenStream) {
     let mut field_names = Vec::new();
     let mut field_readers = Vec::new();
     let mut minimum_bytes_needed = Vec::new();
@@ -1689,6 +1701,7 @@ fn readable_body< 'a >( types: &mut Vec< syn::Type >, st: &Struct< 'a > ) -> (To
         field_readers.push( quote! { let #name: #raw_ty = #read_value; } );
         field_names.push( name );
         types.extend( field.bound_types() );
+        zero_copied_types.extend( field.zero_copied_type() );
 
         if let Some( minimum_bytes ) = get_minimum_bytes( &field ) {
             minimum_bytes_needed.push( minimum_bytes );
@@ -2149,6 +2162,7 @@ fn check_is_primitive( input: &syn::DeriveInput, structure: &Struct, attrs: &Top
 fn impl_readable( input: syn::DeriveInput ) -> Result< TokenStream, syn::Error > {
     let name = &input.ident;
     let mut types = Vec::new();
+    let mut zero_copied_types = Vec::new();
 
     let (reader_body, minimum_bytes_needed_body, impl_primitive, impl_zerocopyable) = match &input.data {
         syn::Data::Struct( syn::DataStruct { ref fields, .. } ) => {
@@ -2156,7 +2170,7 @@ fn impl_readable( input: syn::DeriveInput ) -> Result< TokenStream, syn::Error >
             let attrs = collect_toplevel_struct_attributes( attrs )?;
             let structure = Struct::new( fields, &attrs )?;
             let is_primitive = check_is_primitive( &input, &structure, &attrs );
-            let (body, initializer, minimum_bytes) = readable_body( &mut types, &structure );
+            let (body, initializer, minimum_bytes) = readable_body( &mut types, &mut zero_copied_types, &structure );
             let reader_body = quote! {
                 #body
                 Ok( #name #initializer )
@@ -2248,7 +2262,7 @@ fn impl_readable( input: syn::DeriveInput ) -> Result< TokenStream, syn::Error >
             };
 
             let impl_zerocopyable = if is_primitive.impl_zerocopyable {
-                let (impl_params, ty_params, where_clause) = common_tokens( &input, &field_types, Trait::ZeroCopyable { is_packed: is_primitive.is_ty_packed, is_forced: is_primitive.is_forced } );
+                let (impl_params, ty_params, where_clause) = common_tokens( &input, &field_types, &[], Trait::ZeroCopyable { is_packed: is_primitive.is_ty_packed, is_forced: is_primitive.is_forced } );
                 quote! {
                     unsafe impl< #impl_params C_, T_ > speedy::private::ZeroCopyable< C_, T_ > for #name #ty_params #where_clause {}
                 }
@@ -2267,7 +2281,7 @@ fn impl_readable( input: syn::DeriveInput ) -> Result< TokenStream, syn::Error >
                 let tag = variant.tag_expr;
                 let unqualified_ident = &variant.ident;
                 let variant_path = quote! { #name::#unqualified_ident };
-                let (body, initializer, minimum_bytes) = readable_body( &mut types, &variant.structure );
+                let (body, initializer, minimum_bytes) = readable_body( &mut types, &mut zero_copied_types, &variant.structure );
                 variant_matches.push( quote! {
                     #tag => {
                         #body
@@ -2343,7 +2357,7 @@ fn impl_readable( input: syn::DeriveInput ) -> Result< TokenStream, syn::Error >
         }
     };
 
-    let (impl_params, ty_params, where_clause) = common_tokens( &input, &types, Trait::Readable );
+    let (impl_params, ty_params, where_clause) = common_tokens( &input, &types, &zero_copied_types, Trait::Readable );
     let output = quote! {
         impl< 'a_, #impl_params C_: speedy::Context > speedy::Readable< 'a_, C_ > for #name #ty_params #where_clause {
             #[inline]
@@ -2485,7 +2499,7 @@ fn impl_writable( input: syn::DeriveInput ) -> Result< TokenStream, syn::Error >
         }
     };
 
-    let (impl_params, ty_params, where_clause) = common_tokens( &input, &types, Trait::Writable );
+    let (impl_params, ty_params, where_clause) = common_tokens( &input, &types, &[], Trait::Writable );
     let output = quote! {
         impl< #impl_params C_: speedy::Context > speedy::Writable< C_ > for #name #ty_params #where_clause {
             #[inline]
diff --git a/src/private.rs b/src/private.rs
index 66f21c8..47a50bb 100644
--- a/src/private.rs
+++ b/src/private.rs
@@ -14,6 +14,7 @@ use crate::{Error, error::{error_expected_constant, error_invalid_string_utf8}};
 #[cfg(feature = "alloc")]
 use alloc::{borrow::Cow, string::String, vec::Vec};
 
+pub use crate::context::NativeContext;
 pub use crate::varint::VarInt64;
 pub use crate::error::{
     ErrorKind,
-- 
2.43.0


From 770c106b42f703705048a60d7f3c68d44794260d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:56 +0000
Subject: [PATCH 19/27] fix: do not create an intermediate slice which is too
 long when borrowing an array

---
 src/readable_unsized_impl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/readable_unsized_impl.rs b/src/readable_unsized_impl.rs
index 0c6d9c1..a094cf3 100644
--- a/src/readable_unsized_impl.rs
+++ b/src/readable_unsized_impl.rs
@@ -61,7 +61,7 @@ impl< 'a, C: Context, T, const N: usize > Readable< 'a, C > for &'a [T; N] where
         }
 
         let bytes = reader.read_bytes_borrowed( core::mem::size_of::< T >() * N ).ok_or_else( crate::error::error_unsized )??;
-        let slice = unsafe { crate::private::cast_slice( bytes, N )? };
+        let slice = unsafe { crate::private::cast_slice::< T, C::Error >( bytes, N )? };
         Ok( unsafe { &*(slice.as_ptr() as *const [T; N]) } )
     }
 
-- 
2.43.0


From d25f078d2fee5ba597cf1ca22f6e3b1459e44892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:28 +0000
Subject: [PATCH 20/27] fix: make the byte order of Ipv6Addr independent of the
 host's endianness

---
 src/readable_impl.rs | 2 +-
 src/writable_impl.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/readable_impl.rs b/src/readable_impl.rs
index cc625d9..2ab899b 100644
--- a/src/readable_impl.rs
+++ b/src/readable_impl.rs
@@ -527,7 +527,7 @@ impl< 'a, C > Readable< 'a, C > for core::net::Ipv6Addr where C: Context {
     fn read_from< R: Reader< 'a, C > >( reader: &mut R ) -> Result< Self, C::Error > {
         let mut octets = [0; 16];
         reader.read_bytes( &mut octets )?;
-        if !reader.endianness().conversion_necessary() {
+        if reader.endianness() == Endianness::LittleEndian {
             octets.reverse();
         }
 
diff --git a/src/writable_impl.rs b/src/writable_impl.rs
index da28115..5bf94aa 100644
--- a/src/writable_impl.rs
+++ b/src/writable_impl.rs
@@ -615,7 +615,7 @@ impl< C > Writable< C > for core::net::Ipv6Addr where C: Context {
     #[inline]
     fn write_to< W >( &self, writer: &mut W ) -> Result< (), C::Error > where W: ?Sized + Writer< C > {
         let mut octets = self.octets();
-        if !writer.endianness().conversion_necessary() {
+        if writer.endianness() == Endianness::LittleEndian {
             octets.reverse();
         }
 
-- 
2.43.0


From 4eb59ac4241810c7743b655795c44456eba416bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:43 +0000
Subject: [PATCH 21/27] fix: constant_prefix rejected -128i8 and non-negative
 i8 literals

The derive macro panicked on -128i8 (as 128 does not fit into an i8) and on
literals which are out of range, and rejected the likes of 7i8, although the
error message says to append i8.
---
 speedy-derive/src/lib.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/speedy-derive/src/lib.rs b/speedy-derive/src/lib.rs
index 5f9d071..ff195f0 100644
--- a/speedy-derive/src/lib.rs
+++ b/speedy-derive/src/lib.rs
@@ -912,7 +912,9 @@ impl syn::parse::Parse for FieldAttribute {
                         syn::Lit::Bool( literal ) => vec![ if literal.value { 1 } else { 0 } ],
                         syn::Lit::Int( literal ) => {
                             if literal.suffix() == "u8" {
-                                vec![ literal.base10_parse::< u8 >().unwrap() ]
+                                vec![ literal.base10_parse::< u8 >()? ]
+                            } else if literal.suffix() == "i8" {
+                                vec![ literal.base10_parse::< i8 >()? as u8 ]
                             } else {
                                 return Err( syn::Error::new( value_span, "integers are not supported; if you want to use a single byte constant then append either 'u8' or 'i8' to it" ) );
                             }
@@ -928,7 +930,11 @@ impl syn::parse::Parse for FieldAttribute {
                             match literal {
                                 syn::Lit::Int( literal ) => {
                                     if literal.suffix() == "i8" {
-                                        vec![ (literal.base10_parse::< i8 >().unwrap() * -1) as u8 ]
+                                        let value = literal.base10_parse::< u8 >()?;
+                                        if value > 128 {
+                                            return Err( syn::Error::new( value_span, "the value is out of range for an 'i8'" ) );
+                                        }
+                                        vec![ value.wrapping_neg() ]
                                     } else if literal.suffix() == "u8" {
                                         return generic_error()
                                     } else {
-- 
2.43.0


From e9d0fbe9fd39b1f1132ccf78d3b08469b9e96afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:52 +0000
Subject: [PATCH 22/27] fix: the skip attribute on fields of enum variants
 could not be derived for Writable

---
 speedy-derive/src/lib.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/speedy-derive/src/lib.rs b/speedy-derive/src/lib.rs
index ff195f0..10917ee 100644
--- a/speedy-derive/src/lib.rs
+++ b/speedy-derive/src/lib.rs
@@ -1835,22 +1835,27 @@ fn write_field_body( field: &Field ) -> TokenStream {
 }
 
 fn writable_body< 'a >( types: &mut Vec< syn::Type >, st: &Struct< 'a > ) -> (TokenStream, TokenStream) {
-    let mut field_names = Vec::new();
+    let mut field_patterns = Vec::new();
     let mut field_writers = Vec::new();
     for field in &st.fields {
+        let name = field.var_name();
         if field.skip {
+            field_patterns.push( match st.kind {
+                StructKind::Named => quote! { #name: _ },
+                StructKind::Unnamed | StructKind::Unit => quote! { _ }
+            });
             continue;
         }
 
         let write_value = write_field_body( &field );
         types.extend( field.bound_types() );
 
-        field_names.push( field.var_name().clone() );
+        field_patterns.push( quote! { ref #name } );
         field_writers.push( write_value );
     }
 
     let body = quote! { #(#field_writers)* };
-    let initializer = quote! { #(ref #field_names),* };
+    let initializer = quote! { #(#field_patterns),* };
     let initializer = match st.kind {
         StructKind::Unit => initializer,
         StructKind::Unnamed => quote! { ( #initializer ) },
-- 
2.43.0


From 55a19886b4a5423e0b8251d5260054a4a12042cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:52 +0000
Subject: [PATCH 23/27] fix: types with bounds on their lifetime parameters
 could not be derived for

---
 speedy-derive/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/speedy-derive/src/lib.rs b/speedy-derive/src/lib.rs
index 10917ee..d163e85 100644
--- a/speedy-derive/src/lib.rs
+++ b/speedy-derive/src/lib.rs
@@ -294,7 +294,7 @@ fn common_tokens( ast: &syn::DeriveInput, types: &[syn::Type], zero_copied_types
     };
 
     let ty_params = {
-        let lifetime_params = ast.generics.lifetimes().map( |alpha| quote! { #alpha } );
+        let lifetime_params = ast.generics.lifetimes().map( |alpha| { let lifetime = &alpha.lifetime; quote! { #lifetime } } );
         let type_params = ast.generics.type_params().map( |ty| { let ident = &ty.ident; quote! { #ident } } );
         let params = lifetime_params.chain( type_params ).collect_vec();
         if params.is_empty() {
@@ -329,7 +329,7 @@ fn common_tokens( ast: &syn::DeriveInput, types: &[syn::Type], zero_copied_types
         }
 
         if trait_variant == Trait::Readable {
-            for lifetime in ast.generics.lifetimes() {
+            for lifetime in ast.generics.lifetimes().map( |alpha| &alpha.lifetime ) {
                 predicates.push( quote! { 'a_: #lifetime } );
                 predicates.push( quote! { #lifetime: 'a_ } );
             }
-- 
2.43.0


From b4f83c64cfcbf720e4f6160bc18c796d2b6f9f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:52 +0000
Subject: [PATCH 24/27] fix: the length attribute could not be a literal, nor
 refer to an u64 or a signed field

---
 src/private.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/private.rs b/src/private.rs
index 47a50bb..0f1b5e3 100644
--- a/src/private.rs
+++ b/src/private.rs
@@ -235,6 +235,17 @@ impl IntoLength for u8 {
     fn into_length( self ) -> usize { self as usize }
 }
 
+macro_rules! impl_into_length {
+    ($($type:ty),+) => {$(
+        impl IntoLength for $type {
+            // A value which doesn't fit cannot be equal to the length of anything.
+            fn into_length( self ) -> usize { core::convert::TryInto::try_into( self ).unwrap_or( core::usize::MAX ) }
+        }
+    )+}
+}
+
+impl_into_length! { u64, i8, i16, i32, i64, isize }
+
 impl< 'a, T > IntoLength for &'a T where T: IntoLength + Copy {
     fn into_length( self ) -> usize { (*self).into_length() }
 }
-- 
2.43.0


From edb46b7f3f8883598fcf85565ae8900322832179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:52 +0000
Subject: [PATCH 25/27] fix: repr(C, packed) was not taken for packed

---
 speedy-derive/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/speedy-derive/src/lib.rs b/speedy-derive/src/lib.rs
index d163e85..b686d9b 100644
--- a/speedy-derive/src/lib.rs
+++ b/speedy-derive/src/lib.rs
@@ -576,7 +576,7 @@ fn check_repr( attrs: &[syn::Attribute], value: &str ) -> bool {
         }
 
         if let Ok(meta_list) = raw_attr.meta.require_list() {
-            result = meta_list.tokens.clone().into_token_stream().to_string() == value;
+            result |= meta_list.tokens.to_string().split( ',' ).any( |repr| repr.trim() == value );
         }
     }
 
-- 
2.43.0


From e3505858ba4f49224c129539c554b00ce441e6b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:36 +0000
Subject: [PATCH 26/27] fix: an Option of a type parameter could not be derived
 for

---
 speedy-derive/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/speedy-derive/src/lib.rs b/speedy-derive/src/lib.rs
index b686d9b..0f309f3 100644
--- a/speedy-derive/src/lib.rs
+++ b/speedy-derive/src/lib.rs
@@ -805,7 +805,7 @@ impl< 'a > Field< 'a > {
             | Ty::CowStr( .. )
             | Ty::Primitive( .. )
                 => vec![],
-            | Ty::Ty( _ ) => vec![ self.raw_ty.clone() ]
+            | Ty::Ty( ref inner_ty ) => vec![ inner_ty.clone() ]
         }
     }
 
-- 
2.43.0


From dd9990c57348033603bc391c28ee07584f7f903e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:00 +0000
Subject: [PATCH 27/27] fix: skipped fields of a generic type had to be
 Readable instead of having a default value

---
 speedy-derive/src/lib.rs | 33 +++++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/speedy-derive/src/lib.rs b/speedy-derive/src/lib.rs
index 0f309f3..2a48ebc 100644
--- a/speedy-derive/src/lib.rs
+++ b/speedy-derive/src/lib.rs
@@ -283,7 +283,7 @@ fn parse_primitive_ty( ty: &syn::Type ) -> Option< PrimitiveTy > {
     }
 }
 
-fn common_tokens( ast: &syn::DeriveInput, types: &[syn::Type], zero_copied_types: &[syn::Type], trait_variant: Trait ) -> (TokenStream, TokenStream, TokenStream) {
+fn common_tokens( ast: &syn::DeriveInput, types: &[syn::Type], zero_copied_types: &[syn::Type], defaulted_types: &[syn::Type], trait_variant: Trait ) -> (TokenStream, TokenStream, TokenStream) {
     let impl_params = {
         let lifetime_params = ast.generics.lifetimes().map( |alpha| quote! { #alpha } );
         let type_params = ast.generics.type_params().map( |ty| { let ty_without_default = TypeParam { default: None, ..ty.clone() }; quote! { #ty_without_default } });
@@ -337,6 +337,10 @@ fn common_tokens( ast: &syn::DeriveInput, types: &[syn::Type], zero_copied_types
             for ty in zero_copied_types {
                 predicates.push( quote! { #ty: speedy::private::ZeroCopyable< speedy::private::NativeContext, #ty > } );
             }
+
+            for ty in defaulted_types.iter().filter( |ty| possibly_uses_generic_ty( &generics, ty ) ) {
+                predicates.push( quote! { #ty: core::default::Default } );
+            }
         }
 
         let items = constraints.chain( predicates.into_iter() ).collect_vec();
@@ -817,6 +821,15 @@ impl< 'a > Field< 'a > {
         }
     }
 
+    /// The type which has to have a default value, if any.
+    fn defaulted_type( &self ) -> Option< syn::Type > {
+        if self.skip || self.default_on_eof {
+            Some( self.raw_ty.clone() )
+        } else {
+            None
+        }
+    }
+
     fn is_guaranteed_non_recursive( &self ) -> bool {
         is_guaranteed_non_recursive( &self.raw_ty )
     }
@@ -1696,7 +1709,7 @@ fn read_field_body( field: &Field ) -> TokenStream {
     }
 }
 
-fn readable_body< 'a >( types: &mut Vec< syn::Type >, zero_copied_types: &mut Vec< syn::Type >, st: &Struct< 'a > ) -> (TokenStream, TokenStream, TokenStream) {
+fn readable_body< 'a >( types: &mut Vec< syn::Type >, zero_copied_types: &mut Vec< syn::Type >, defaulted_types: &mut Vec< syn::Type >, st: &Struct< 'a > ) -> (TokenStream, TokenStream, TokenStream) {
     let mut field_names = Vec::new();
     let mut field_readers = Vec::new();
     let mut minimum_bytes_needed = Vec::new();
@@ -1706,8 +1719,11 @@ fn readable_body< 'a >( types: &mut Vec< syn::Type >, zero_copied_types: &mut Ve
         let raw_ty = field.raw_ty;
         field_readers.push( quote! { let #name: #raw_ty = #read_value; } );
         field_names.push( name );
-        types.extend( field.bound_types() );
+        if !field.skip {
+            types.extend( field.bound_types() );
+        }
         zero_copied_types.extend( field.zero_copied_type() );
+        defaulted_types.extend( field.defaulted_type() );
 
         if let Some( minimum_bytes ) = get_minimum_bytes( &field ) {
             minimum_bytes_needed.push( minimum_bytes );
@@ -2174,6 +2190,7 @@ fn impl_readable( input: syn::DeriveInput ) -> Result< TokenStream, syn::Error >
     let name = &input.ident;
     let mut types = Vec::new();
     let mut zero_copied_types = Vec::new();
+    let mut defaulted_types = Vec::new();
 
     let (reader_body, minimum_bytes_needed_body, impl_primitive, impl_zerocopyable) = match &input.data {
         syn::Data::Struct( syn::DataStruct { ref fields, .. } ) => {
@@ -2181,7 +2198,7 @@ fn impl_readable( input: syn::DeriveInput ) -> Result< TokenStream, syn::Error >
             let attrs = collect_toplevel_struct_attributes( attrs )?;
             let structure = Struct::new( fields, &attrs )?;
             let is_primitive = check_is_primitive( &input, &structure, &attrs );
-            let (body, initializer, minimum_bytes) = readable_body( &mut types, &mut zero_copied_types, &structure );
+            let (body, initializer, minimum_bytes) = readable_body( &mut types, &mut zero_copied_types, &mut defaulted_types, &structure );
             let reader_body = quote! {
                 #body
                 Ok( #name #initializer )
@@ -2273,7 +2290,7 @@ fn impl_readable( input: syn::DeriveInput ) -> Result< TokenStream, syn::Error >
             };
 
             let impl_zerocopyable = if is_primitive.impl_zerocopyable {
-                let (impl_params, ty_params, where_clause) = common_tokens( &input, &field_types, &[], Trait::ZeroCopyable { is_packed: is_primitive.is_ty_packed, is_forced: is_primitive.is_forced } );
+                let (impl_params, ty_params, where_clause) = common_tokens( &input, &field_types, &[], &[], Trait::ZeroCopyable { is_packed: is_primitive.is_ty_packed, is_forced: is_primitive.is_forced } );
                 quote! {
                     unsafe impl< #impl_params C_, T_ > speedy::private::ZeroCopyable< C_, T_ > for #name #ty_params #where_clause {}
                 }
@@ -2292,7 +2309,7 @@ fn impl_readable( input: syn::DeriveInput ) -> Result< TokenStream, syn::Error >
                 let tag = variant.tag_expr;
                 let unqualified_ident = &variant.ident;
                 let variant_path = quote! { #name::#unqualified_ident };
-                let (body, initializer, minimum_bytes) = readable_body( &mut types, &mut zero_copied_types, &variant.structure );
+                let (body, initializer, minimum_bytes) = readable_body( &mut types, &mut zero_copied_types, &mut defaulted_types, &variant.structure );
                 variant_matches.push( quote! {
                     #tag => {
                         #body
@@ -2368,7 +2385,7 @@ fn impl_readable( input: syn::DeriveInput ) -> Result< TokenStream, syn::Error >
         }
     };
 
-    let (impl_params, ty_params, where_clause) = common_tokens( &input, &types, &zero_copied_types, Trait::Readable );
+    let (impl_params, ty_params, where_clause) = common_tokens( &input, &types, &zero_copied_types, &defaulted_types, Trait::Readable );
     let output = quote! {
         impl< 'a_, #impl_params C_: speedy::Context > speedy::Readable< 'a_, C_ > for #name #ty_params #where_clause {
             #[inline]
@@ -2510,7 +2527,7 @@ fn impl_writable( input: syn::DeriveInput ) -> Result< TokenStream, syn::Error >
         }
     };
 
-    let (impl_params, ty_params, where_clause) = common_tokens( &input, &types, &[], Trait::Writable );
+    let (impl_params, ty_params, where_clause) = common_tokens( &input, &types, &[], &[], Trait::Writable );
     let output = quote! {
         impl< #impl_params C_: speedy::Context > speedy::Writable< C_ > for #name #ty_params #where_clause {
             #[inline]
-- 
2.43.0

