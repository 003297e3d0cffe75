def add(p):
    F='storm-ffi/src/lib.rs'
    p('C13','The C interface behaves like a file API, for every caller',
      "Each SFile* call answers as a simple model says: handles are never null and never reissued, stale, null and wrong-kind handles are refused with ERROR_INVALID_HANDLE, and closing an archive closes its files. Reading and seeking move one cursor per file handle (positions before the file are refused and change nothing, positions past the end mean the end); sizes, names, information classes, SFileHasFile, masks of SFileEnumFiles (whose callback may call the interface), extraction, creation dispositions and verification tell the truth about the archive. Every failing call sets the matching last error, per thread. No call writes outside the memory it was handed, requires it to be aligned, or unwinds into the caller.",
      ['inputs','histories'],'all sequences of calls over valid, stale, wrong-kind and null handles, intact, damaged, signed and attributed archives, buffers of any size and alignment',
      'Handle reuse, cursor arithmetic and error codes depend on call histories; the crate has six tests that never open an archive.',
      [F],[('handle tables','storm-ffi/src/lib.rs ARCHIVES, FILES, NEXT_HANDLE'),('SFileSetFilePointer / SFileReadFile','storm-ffi/src/lib.rs'),('get_file_info / get_archive_info','storm-ffi/src/lib.rs'),('verify_file, SFileVerifyArchive','storm-ffi/src/lib.rs'),('SFileEnumFiles, SFileExtractFile','storm-ffi/src/lib.rs')],
      technique='runtime monitor: call histories checked online against a model, buffers between guard pages and canaries, pointer checks on')
    p('C14','The C interface is linearizable and free of races and deadlocks',
      "Calls made from several threads on shared or separate handles behave as if made one at a time in some order that respects their real-time order: no handle is issued twice, no read position is lost or shared by accident, a file opened while its archive is being closed is not left open, and a refused or successful call is explained by that order. Every call returns whatever the other threads do, also from within an enumeration callback, and no memory is raced on. Last error and locale belong to the calling thread alone.",
      ['schedules','histories'],'all interleavings of all programs of calls over shared archives and files',
      'The interleaving that loses an update or deadlocks is one of many thousands; the tests are single-threaded.',
      [F],[('ARCHIVES before FILES lock order','storm-ffi/src/lib.rs SFileCloseArchive, SFileOpenFileEx'),('NEXT_HANDLE','storm-ffi/src/lib.rs'),('LAST_ERROR, LOCALE','storm-ffi/src/lib.rs'),('callback outside the lock','storm-ffi/src/lib.rs SFileEnumFiles')],
      technique='controlled scheduling of the instrumented locks with a linearizability checker and deadlock detection; free-running stress, also under ThreadSanitizer')
    C='storm-cli/src/'
    p('C15','The command line tool does what it reports, and nothing else',
      "storm-cli archive create followed by file extract -p reproduces the directory tree, for every version, compression, sector size, listfile choice, ignore pattern and configuration default, and the archive holds no more and no less. list, find, info, file info, verify and hash tell the truth about the archive in every output format (JSON parses, CSV fields are quoted, listings are sorted by name), agreeing with what the library reports, for archives of other writers and damaged ones too. Extraction never writes outside its target directory whatever names an archive holds; what cannot be written or read is reported by the exit status while everything else is still extracted. verify passes intact archives and fails archives with damaged contents, tables, digests or signatures. No archive, name or argument makes the tool panic, hang or crash, and a failed creation leaves no partial output and the replaced archive as it was.",
      ['inputs','configurations'],'all directory trees, options and archives, including archives with hostile names and damaged ones',
      'Paths, options, output formats and damage multiply; the tests only check that some commands print some words.',
      [C+'main.rs',C+'commands/archive.rs',C+'commands/file.rs',C+'commands/hash.rs',C+'output.rs',C+'config.rs'],
      [('relative_output_path, extract_one','storm-cli/src/commands/file.rs'),('create / add_directory_to_archive','storm-cli/src/commands/archive.rs'),('verify','storm-cli/src/commands/archive.rs'),('print_*','storm-cli/src/output.rs'),('load_config','storm-cli/src/config.rs')],
      technique='runtime monitor: the built tool run as an unprivileged process in a scratch directory; file system snapshots, exit status and parsed output compared with a model and an independent reader')
    M='mopaq/src/'
    p('C17','How storage delivers or fails never changes an answer',
      "Reads of the archive that the system cuts short or interrupts, at any point, change no answer: open, read_file, find_file, list, list_all, get_info, verify_signature and the io readers return what they return on a storage that delivers everything at once. A read or seek that fails is reported as an error, or made good from another source that gives the same answer; it never becomes missing or partial content, FileNotFound for an existing file, a shorter listing, an absent signature or a valid digest, neither in the call it hits nor in any later call on the same handle, which answers again correctly once the storage does.",
      ['inputs','fault_sequences','histories'],'all read-only operations on all generated archives, eager and lazy, with every kind of short, interrupted and failing read or seek at every position',
      'The tests read from a disk that always delivers; a read taken for read_exact, a swallowed error or a flag set before the failing read shows only under a fault at one particular call.',
      [M+'archive.rs',M+'header.rs',M+'tables/',M+'io.rs'],[('Archive::load_tables / ensure_tables_loaded','mopaq/src/archive.rs'),('read_sectored_file','mopaq/src/archive.rs'),('verify_signature','mopaq/src/archive.rs'),('BufferedMpqReader','mopaq/src/io.rs')],
      technique='runtime monitor with fault injection: interposed read and seek calls of the process are shortened, interrupted or failed, every answer compared with the fault-free one')
    p('C18',"What the API shows of an archive's structure is what is in the file",
      "find_header, Archive::header, user data, hash_table, block_table, hi_block_table, het_table and bet_table, and the entries they hand out, show exactly the values that the file holds after decryption, field by field, in every version, wherever the archive lies and however the tables are compressed. Lookups made directly on the tables (hash table with any locale, HET candidates, BET file information and hashes) find exactly what the published lookup rules find, and tables that are absent or unusable are not shown.",
      ['inputs','configurations'],'all archives the builder or the reference writer can lay out, all table sizes and field widths, all names and locales looked up',
      'Field order, bit widths and 16/32/64-bit composition are only visible for particular values; the tests compare a few fields of small archives.',
      [M+'header.rs',M+'tables/hash.rs',M+'tables/block.rs',M+'tables/het.rs',M+'tables/bet.rs',M+'archive.rs'],
      [('MpqHeader::read, find_header','mopaq/src/header.rs'),('HashTable::read/find_file','mopaq/src/tables/hash.rs'),('BlockTable, HiBlockTable','mopaq/src/tables/block.rs'),('HetTable','mopaq/src/tables/het.rs'),('BetTable','mopaq/src/tables/bet.rs')],
      technique='runtime monitor: structures exposed by the API compared field by field with an independent parse of the bytes')
    p('C19','Independent work in several threads and processes stays independent',
      "Archives, builders, codecs and hashes may be used from several threads at once, each handle by one thread at a time: every call answers what it answers alone, whatever other threads read, build, compress or hash meanwhile and whichever thread opened the handle. Builds running at the same time, in threads or processes, into one directory each deliver their own complete archive and leave nothing else; builds to the same path leave one of them complete, and whoever opens the path meanwhile sees one complete archive. No memory is raced on and no call waits forever.",
      ['schedules','histories'],'all interleavings of independent calls of the library in several threads and of builds in several processes',
      'Shared state (a cached buffer, a fixed temporary name, a global table) is invisible to single-threaded tests and to any single call.',
      [M+'builder.rs',M+'archive.rs',M+'crypto/',M+'compression/'],[('ArchiveBuilder::build (temporary file and rename)','mopaq/src/builder.rs'),('Archive::open / read_file','mopaq/src/archive.rs'),('encryption table','mopaq/src/crypto/keys.rs'),('compress / decompress','mopaq/src/compression/')],
      technique='runtime monitor: concurrent threads and processes with jittered system calls, every answer compared with the single-threaded one; the same workload under ThreadSanitizer')
