CONF = 'explicit enumeration of the states (values, inputs) of a reference model, with every transition replayed on the implementation'
ENV = 'stateless exploration of the implementation: depth-first enumeration of environment answers with a bound on deviations'
NOTES = {
 'C01': (CONF, 'Every value up to the bounds of 1224 types is written and read back from five kinds of sources in both byte orders. Types and values outside of the catalogue are not covered; trusts the reference model for which values are equal.'),
 'C02': (CONF, 'Byte-exact comparison with an independent reference encoder for every enumerated value of every catalogued type. Trusts the reference model.'),
 'C03': (CONF, 'Every byte string of the bounded input language of every catalogued type is decoded by the implementation and by an independent reference decoder. Trusts the reference model.'),
 'C05': (CONF + '; ' + ENV, 'Consumption is compared with the reference for every enumerated encoding x tail, and streams are watched at the Read interface under every chunking within the deviation bound.'),
 'C06': (CONF + '; ' + ENV, 'Every enumerated value x every buffer size around its length x short writes within the deviation bound.'),
 'C10': ('enumeration of every truncation point of every enumerated encoding, on the implementation', 'Every cut of every enumerated encoding from every source. Trusts the reference model for what a strict prefix is.'),
 'C11': (CONF, 'minimum_bytes_needed is compared with the least size according to the reference for every catalogued type, and every enumerated encoding has to be accepted from an exact buffer.'),
 'C04': (ENV + '; plus every split of the input and every small capacity of the internal buffer', 'Every enumerated input x every chunking (all splits of short inputs; all chunk sequences within the deviation bound for longer ones) x interruptions x internal buffer capacities, compared with the result from a buffer.'),
 'C07': (ENV, 'An error of several kinds is injected at every read call of every chunking within the bound, for every catalogued type; the result is compared with the reference. Only kinds in the list are injected.'),
 'C08': (ENV, 'Errors, zero-length writes, short writes and interruptions at every write call within the deviation bound, for every catalogued type, and file system faults through RLIMIT_FSIZE and /dev/full.'),
 'C09': ('exhaustive enumeration of bounded input languages (strings over small alphabets, neighbours of valid encodings, numbers of every magnitude in every position), run on the implementation in watched processes', 'Bounded inputs for every catalogued type from every source; hangs and crashes are observed by a supervising process, allocation through a counting allocator.'),
 'C12': (CONF, 'Lengths around every limit of every length type, every pair of announced and actual lengths up to a bound, every two-byte announcement.'),
 'C13': ('enumeration of every truncation point of every enumerated encoding, with every corruption of what precedes it, on the implementation against a reference model', 'Derived types with default_on_eof or length = .., alone and combined with the other attributes. Inputs for which the outcome is unspecified (see DESIGN.md) are skipped and counted.'),
 'C14': (CONF, 'All one and two byte tags and patterns in wider ones for every catalogued enum (every tag type, peek_tag, explicit and implicit tags).'),
 'C15': (CONF, 'Derived types with every attribute alone and in pairs, in every kind of structure.'),
 'C17': (CONF, 'Containers up to 40 (300) elements and around the sizes of internal buffers, for every element type eligible for bulk copying, and for some which are nearly so.'),
 'C16': (CONF, 'Varint values around every boundary and with few bits set or cleared; patterns with every first byte. Not all 2^64 values. Every peek and skip is observed from every kind of source.'),
 'C20': ('explicit enumeration of all Reader operation sequences up to a depth over a cursor model (states: set of possible positions, byte order), every transition replayed on the implementation', 'All sequences up to the depth over the listed operations and inputs. Longer sequences and other lengths are not covered; the model is trusted.'),
 'C21': ('explicit enumeration of all Writer operation sequences up to a depth over a model (concatenation), every transition replayed on the implementation', 'All sequences up to the depth over the listed operations, to every kind of sink and buffers of every size.'),
 'C25': (CONF, 'All 16 bit values; for wider types, values with few bits set or cleared and with every single byte; slices of every length up to a bound.'),
 'C18': (CONF, 'Every borrowing type x length x all 16 alignments of the input x byte order x source; addresses of the results are compared with the ones of the input.'),
 'C19': ('enumeration of every fault point (failing, truncated or panicking element) of every container and length, on the implementation with elements which log their construction and drop', 'Containers of up to 5 (thorough: more) elements, every index and kind of failure. Leaks after a panic are allowed.'),
 'C22': (CONF, 'All sequences of up to 5 (6) context changes, reads, writes and failures, nested in 25 (28) ways, through every function which takes a context. The size calculation has no context to give (known finding), so types which look at it while writing calculate their size themselves.'),
 'C23': (ENV + '; plus enumeration of file sizes around every page boundary and of all operation sequences on files up to a depth', 'Every system call made by reading and writing files is answered in every way within the deviation bound; the page size is the one of the machine. Files changing while they are read are not covered.'),
 'C26': ('exhaustive enumeration of bounded values and inputs, run by one program built in every listed feature configuration, whose observations are compared', 'Ten configurations (thorough: 34) out of all subsets of the features; 113 types. Combinations which do not compile at the pinned commit (indexmap or regex without std, smallvec without alloc, constant_prefix without alloc) are left out.'),
 'C28': (CONF, 'Every failing read and write of the enumerated values and inputs; the first problem according to the reference has to be the reported one (or that the input is too short for what it announces). Errors of types outside of the catalogue are not covered.'),
 'C24': ('exhaustive enumeration of bounded values and inputs of every catalogued type, executed on the implementation in an interpreter (Miri) as the undefined-behaviour monitor of each execution; plus enumeration of programs (element type x item x attribute) which must not compile', 'Every catalogued type, but few values and inputs of each; Stacked Borrows is the aliasing model. Reading files through mmap cannot be interpreted (C23 looks at those natively); Regex is left out because it takes too long.'),
 'C27': ('exhaustive enumeration of bounded values and inputs of every catalogued type, interpreted as on other platforms (big endian 64 bit, little endian 32 bit), compared case by case with the native execution', 'Two platforms, few values and inputs of each type. The numbers which do not fit into an usize, and truncated fields with defaults, are left out where platforms may differ.'),
  'C29': ('exhaustive enumeration of a bounded grammar of declarations, each given to the real macros and compiler, against a model of what is to be accepted and what rejected', 'Fields with up to two (three) attributes, up to three variants with tags, and lists of names, literals and forms. What no documentation speaks of (skip together with attributes which do not fit, const generics, repr(packed(N))) is not asserted.'),
  'C30': ('stateless exploration of the implementation under a controlled scheduler: all nestings of pairs of operations, and all schedules of two threads with a bound on switches', 'Control is switched only where it is outside of the library (streams and user implementations), so races between such points are not explored. Pairs of operations out of a selection from the catalogue and of types which yield.'),
}
LEVELS = {'C24': 'exploration', 'C26': 'exploration', 'C27': 'exploration', 'C29': 'exploration'}
NA = {}
