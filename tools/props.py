#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json (run: python3 tools/props.py)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,technique='',level='exploration',note=''):
    a={'files':files,'mechanism':[{'name':n,'where':w} for n,w in mech]}
    if state: a['state']=state
    if observe: a['observe_at']=observe
    P.append(dict(id=id,title=title,statement=statement,quantifier={'over':over,'text':text},why_tests_cant=why,anchors=a,_t=technique,_l=level,_n=note))
M='mopaq/src/'
p('C01','What is put into an archive comes back byte for byte',
  "Every file added to an ArchiveBuilder, by path or as data, is returned unchanged by Archive::open and read_file, for every format version, sector size, lossless compression method, encryption mode (none, plain key, position-adjusted key), checksum setting, table compression, listfile option, locale and content, including empty files and sizes around sector boundaries. A legal build never fails, nothing the builder wrote is unreadable, and what the format cannot hold (a file of 4 GiB or more) is refused, never truncated.",
  ['inputs','configurations'],'all legal combinations of builder options, names and contents (files below 4 GiB, lossless methods)',
  'Round trips depend on the product of version, sector size, codec, encryption, checksums, content compressibility and size modulo sector and dword; the unit tests sample a few hand-picked points.',
  [M+'builder.rs',M+'archive.rs',M+'compression/',M+'tables/',M+'crypto/'],
  [('ArchiveBuilder::write_file','mopaq/src/builder.rs'),('Archive::read_file / read_sectored_file','mopaq/src/archive.rs'),('compress / decompress','mopaq/src/compression/')],
  technique='runtime monitor: build/open/read of generated archives compared with the model of what was added')
p('C02','Names find exactly their own file',
  "find_file and read_file find a file under every spelling that differs only in ASCII case or in '/' versus '\\', through the classic and the extended (HET/BET) tables alike, and report FileNotFound for every name that was not added, also when its hash slot, hash bits or chain coincides with those of files that were. Adding the same name twice with the same locale is refused, and files that share a name but differ in locale do not disturb other files.",
  ['inputs','configurations'],'all sets of names and all looked-up names, including colliding, wrapping and absent ones, in all versions',
  'Collisions, wrap-around of probe chains and truncated hash bits need adversarially chosen names that random or hand-written tests do not contain.',
  [M+'tables/hash.rs',M+'tables/het.rs',M+'tables/bet.rs',M+'crypto/hash.rs',M+'archive.rs',M+'builder.rs'],
  [('HashTable::find_file','mopaq/src/tables/hash.rs'),('HetTable::find_candidates','mopaq/src/tables/het.rs'),('Archive::find_file','mopaq/src/archive.rs'),('hash table insertion','mopaq/src/builder.rs')],
  technique='runtime monitor: lookups of present, respelled, colliding and absent names compared with the model set')
p('C03','Listings and archive information describe the archive truthfully',
  "list and list_with_hashes report exactly the files that exist and that the listfile names (every existing file, under generated names, when there is no listfile), list_all reports every existing file once, each with its true size, compressed size and flags. get_info reports the true file count, version, sector size, offsets and presence of special files, encryption and user data, and the capacity and table details agree with the tables.",
  ['inputs','configurations'],'all built archives: any number of files, any listfile kind (generated, external with stale or missing names, none), any version',
  'The listing code has separate paths per table kind and listfile kind; stale, missing and anonymous entries combine in ways the tests do not enumerate.',
  [M+'archive.rs',M+'special_files/listfile.rs'],[('Archive::list/list_all/list_with_hashes','mopaq/src/archive.rs'),('Archive::get_info','mopaq/src/archive.rs'),('prepare_listfile','mopaq/src/builder.rs')],
  technique='runtime monitor: listings and information of generated archives compared with the model')
p('C04','Every codec returns what it was given and speaks the standard format',
  "For every lossless method and every input, decompress(compress(x)) is x; compress never returns more bytes than its input, and returns the input itself when it returns as many. Compressed streams are readable by independent decoders and streams of independent encoders are readable here; ADPCM keeps the length and stays within the coder's quantisation step of its input, decodes to the samples an independent decoder yields, and does so alone and in front of any lossless method.",
  ['inputs'],'all byte strings (any length up to the sector sizes in use, any statistics) and all supported methods',
  'Codec errors hide at run lengths, window sizes and incompressible inputs; the tests use a few short strings.',
  [M+'compression/compress.rs',M+'compression/decompress.rs',M+'compression/algorithms/'],
  [('compress / decompress','mopaq/src/compression/'),('sparse run encoding','mopaq/src/compression/algorithms/sparse.rs'),('ADPCM','mopaq/src/compression/algorithms/adpcm.rs')],
  technique='runtime monitor: differential execution of the codecs against independent encoders and decoders')
p('C05','Encryption and hashing are the MPQ algorithms, exactly and invertibly',
  "decrypt_block inverts encrypt_block for every key and every block, decrypt_dword agrees with it, and both equal the published algorithm. hash_string equals the published hash for every name and hash type and ignores ASCII case and slash direction; jenkins_hash is a function of the normalised name only.",
  ['inputs'],'all keys, blocks, names and hash types',
  'A wrong table constant, rotation or case rule shows only for particular keys or characters.',
  [M+'crypto/'],[('encrypt_block / decrypt_block','mopaq/src/crypto/'),('hash_string / jenkins_hash','mopaq/src/crypto/hash.rs')],
  technique='runtime monitor: differential execution against an independent implementation')
p('C06','What the builder writes is a well-formed MPQ archive for any reader',
  "The bytes written by ArchiveBuilder follow docs/mopaq-format.md: header fields and sizes are true, nothing overlaps or lies outside the archive, hash and block tables (and HET/BET in version 3 and 4) lead an independent reader to every file and agree with each other, flags say what was requested, sector offsets, checksums and version 4 MD5 digests match the data. An independent reader decodes every file to the added content.",
  ['inputs','configurations'],'all legal combinations of builder options, names and contents',
  'The repository only reads its own output back, so writer and reader errors that cancel out are invisible to its tests.',
  [M+'builder.rs',M+'header.rs',M+'tables/'],[('write_archive / write_header','mopaq/src/builder.rs'),('HET/BET creation','mopaq/src/builder.rs'),('MD5 calculation','mopaq/src/builder.rs')],
  technique='runtime monitor: on-disk state of generated archives checked by an independent reader')
p('C07','Archives of other writers read correctly',
  "An archive laid out by another writer according to docs/mopaq-format.md opens and reads correctly: any table order and size, deleted and non-existing entries, spare and shuffled blocks, mixed per-sector methods and stored sectors, single units, imploded files, raw uncompressed files, position-adjusted keys, positions beyond 4 GiB, compressed extended tables, archives that have only the extended tables, archives embedded at any 512-byte boundary or behind user data. Deleted or non-existing entries are not found.",
  ['inputs','configurations'],'all archives the reference writer can lay out',
  'The tests read only archives made by this builder, which uses one layout; the reader supports many more.',
  [M+'archive.rs',M+'header.rs',M+'tables/',M+'compression/'],[('find_header','mopaq/src/header.rs'),('Archive::load_tables','mopaq/src/archive.rs'),('Archive::read_file','mopaq/src/archive.rs'),('HiBlockTable','mopaq/src/tables/block.rs')],
  technique='runtime monitor: reading of archives laid out by an independent writer compared with its inputs')
p('C08','Damage is detected, never returned as data',
  "read_file never returns data that contradicts the checksums stored for it, never data of another length than the file's, and on a truncated archive either the right content or an error; damage inside one file does not affect any other. A version 4 archive whose header or tables were altered never reports all its MD5 digests valid (opening or get_info fails, or a digest is reported invalid), and an intact one always does.",
  ['inputs','fault_sequences'],'all byte alterations, sector swaps, checksum alterations and truncations of all generated archives',
  'A disabled, misplaced or mis-keyed comparison leaves every test on intact archives green.',
  [M+'archive.rs',M+'builder.rs'],[('checksum validation','mopaq/src/archive.rs read_file, read_sectored_file'),('validate_v4_md5_checksums','mopaq/src/archive.rs'),('decompress_unit','mopaq/src/archive.rs')],
  level='fault_enumeration',technique='fault injection on stored bytes with an online checksum/length/digest oracle')
p('C09','No archive can crash, hang or exhaust a reader',
  "For every byte sequence offered as an archive, and every sequence of read-only calls on it, each call returns: no panic, abort, arithmetic overflow or endless loop, and no memory out of proportion to the file's length and the size declared for the file being read. The same holds for the codecs and the listfile, attributes and signature parsers on arbitrary bytes.",
  ['inputs'],'all byte sequences: structurally mutated archives (re-encrypted tables), decompression bombs, random headers, garbage streams',
  'Hostile sizes, offsets and counts form an unbounded input space; tests contain well-formed archives.',
  [M+'header.rs',M+'archive.rs',M+'tables/',M+'compression/algorithms/',M+'special_files/',M+'crypto/signature.rs'],
  [('MpqHeader::read / find_header','mopaq/src/header.rs'),('table readers','mopaq/src/tables/'),('read_bytes','mopaq/src/tables/common.rs'),('LimitedBuffer','mopaq/src/compression/algorithms/mod.rs')],
  technique='sanitizer-style monitors (overflow checks, panic, allocation and CPU monitors) over hostile inputs')
p('C10','Building is all or nothing at every crash point and under every fault',
  "At every system call of a build, and after any call of it fails, is cut short or interrupted, the destination path holds exactly what it held before or the complete new archive. A build that reports success has delivered the complete archive; one that reports an error leaves no temporary files; sources and neighbouring files are never changed.",
  ['crash_points','fault_sequences'],'all system-call boundaries and all injected errors, short transfers and interruptions, for absent, valid, foreign and empty destinations',
  'Tests never fail a write or look at the disk in the middle of a build.',
  [M+'builder.rs'],[('ArchiveBuilder::build (temporary file, persist)','mopaq/src/builder.rs'),('OpenOptions::create','mopaq/src/archive.rs')],
  level='fault_enumeration',technique='system-call tracing with fault injection; state of the destination checked at every stop')
p('C11','Special files carry their information faithfully and harmlessly',
  "(attributes) data parses to exactly the entries it encodes for every flag set and entry count, serialises back to the same bytes, is refused when too short or of another version, and get_file_attributes returns the entry belonging to a file's block. A (listfile) means exactly its non-comment lines; a damaged (attributes) file never prevents opening, listing or reading the rest.",
  ['inputs'],'all attribute sets, entry counts (bit-packing boundaries included), listfile texts and damaged special files',
  'Bit-packed arrays and optional sections multiply; tests use one or two entries.',
  [M+'special_files/',M+'archive.rs'],[('Attributes::parse / to_bytes','mopaq/src/special_files/attributes.rs'),('parse_listfile','mopaq/src/special_files/listfile.rs'),('Archive::load_attributes','mopaq/src/archive.rs')],
  technique='runtime monitor: special-file contents compared with the encoded model')
p('C12','Signatures verify if and only if they are genuine',
  "An archive properly signed with the weak key verifies as WeakValid wherever the signature lies and wherever the archive starts; changing any byte of the archive outside the signature file, or of the signature, or presenting any block that is not the exact PKCS#1 encoding of the archive's digest, never verifies. Archives without a signature report None, and nothing that was not made with the strong private key reports StrongValid: a block behind the archive that has the form of a strong signature and is not blank is reported as a signature, and not a valid one. get_info reports the status that verify_signature reports.",
  ['inputs'],'all archives, signature positions (64 KiB unit boundaries included), alterations and crafted signature blocks',
  'No test holds a signed archive; acceptance of a forgery cannot be seen by testing genuine or random ones only.',
  [M+'crypto/signature.rs',M+'archive.rs'],[('calculate_mpq_hash_md5','mopaq/src/crypto/signature.rs'),('verify_pkcs1_v15_md5','mopaq/src/crypto/signature.rs'),('verify_weak_signature / verify_strong_signature','mopaq/src/archive.rs')],
  technique='runtime monitor: verification verdicts on archives signed, altered and forged with the real private key')
p('C16','Reading has no memory and no side effects',
  "Every read-only call on an Archive answers what a freshly opened handle answers, whatever calls, including failing ones, came before on the same or other handles, and whether the tables were loaded at opening or on first use. A handle keeps answering from the archive it opened when the path is removed, renamed, replaced or built over afterwards. No read-only call changes the archive file or its directory.",
  ['histories'],'all sequences of read-only calls on one or several handles of intact, damaged and embedded archives, eager and lazy',
  'State left behind by an earlier call (stream position, cached tables, attributes) shows only in particular sequences.',
  [M+'archive.rs'],[('Archive reader position and caches','mopaq/src/archive.rs'),('ensure_tables_loaded','mopaq/src/archive.rs'),('OpenOptions::load_tables','mopaq/src/archive.rs')],
  technique='runtime monitor: call histories checked against fresh handles')
try:
    import props_ext
    props_ext.add(p)
except ImportError:
    pass
P.sort(key=lambda x:x['id'])
NA=[]
checks=[]
with open('/verif/properties.jsonl','w') as f:
    for x in P:
        checks.append({'property':x['id'],'quick_cmd':f"./run.sh check {x['id']}",'thorough_cmd':f"VERIF_TIER=thorough ./run.sh check {x['id']}",'evidence_file':f"evidence/{x['id']}.json",'technique':x['_t'],'level':x['_l'],'level_note':x['_n'] or 'Executions of the real code on generated inputs, every answer judged by an oracle; reach is that of the workload, see coverage in the evidence file.'})
        y={k:v for k,v in x.items() if not k.startswith('_')}
        assert len(y['title'])<=80,(y['id'],len(y['title']))
        f.write(json.dumps(y,ensure_ascii=False)+'\n')
json.dump({'version':1,'setup_cmd':'./run.sh setup','checks':checks,'not_applicable':NA,'notes':'Every check rebuilds its harness from /repo\'s working tree (cold: about 20 s) and runs it; no hooks are needed in /repo. See DESIGN.md.'},open('/verif/MANIFEST.json','w'),indent=1,ensure_ascii=False)
print(len(P),'properties')
