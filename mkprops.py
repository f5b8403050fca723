#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the long texts stay readable)."""
import json
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=None)))
S = 'src/'
prop('C01', 'Standard deltas rebuild the new package byte for byte',
 'For every pair of well-formed binary or source packages whose cpio payload is uncompressed or compressed with a supported method at the level (1 or higher) its header records, and every supported combination of format version, delta compression and add-block setting, making a standard delta succeeds and applying it to the old package file succeeds. The package written by the application is identical, byte for byte, to the new package the delta was made from.',
 ['inputs', 'configurations'], 'all old/new package pairs (file sets, file kinds, flags, orders, hard links, sizes, contents, payload compressors and levels) and all option combinations for standard deltas',
 'The tests make and apply a handful of deltas from two fixed package pairs, all xz level 2, with default-like file sets; which copies, offsets, skipped files, add blocks and block boundaries arise depends on the input.',
 [S+'drpm.c', S+'drpm_make.c', S+'drpm_diff.c', S+'drpm_search.c', S+'drpm_write.c', S+'drpm_read.c', S+'drpm_apply.c', S+'drpm_block.c', S+'drpm_rpm.c'],
 [('drpm_make', S+'drpm.c'), ('parse_cpio_from_rpm_filedata', S+'drpm_make.c'), ('make_diff', S+'drpm_diff.c'), ('drpm_apply', S+'drpm.c'), ('fillblock_rpm_standard', S+'drpm_block.c')],
 observe=['drpm_make return value', 'drpm_apply return value', 'bytes of the written package'])
prop('C02', 'RPM-only deltas rebuild the new package byte for byte',
 'For every pair of well-formed packages whose cpio payload is uncompressed or compressed with a supported method at the level (1 or higher) its header records, and every supported compression and add-block setting, making an rpm-only delta succeeds and applying it to the old package file succeeds. The package written by the application, header included, is identical, byte for byte, to the new package.',
 ['inputs', 'configurations'], 'all old/new package pairs, including packages without files and payloads of any size, and all option combinations for rpm-only deltas',
 'The tests apply rpm-only deltas of two fixed pairs without add block only.',
 [S+'drpm.c', S+'drpm_diff.c', S+'drpm_search.c', S+'drpm_write.c', S+'drpm_read.c', S+'drpm_block.c'],
 [('drpm_make', S+'drpm.c'), ('make_diff', S+'drpm_diff.c'), ('compstrm_wrapper_write', S+'drpm_write.c'), ('fillblock_rpm_rpmonly', S+'drpm_block.c')],
 observe=['drpm_make return value', 'drpm_apply return value', 'bytes of the written package'])
prop('C03', 'Identity deltas restore the package and carry a new signature',
 'A delta made from one package alone, standard or rpm-only, rebuilds exactly that package when applied to it. It also rebuilds exactly that package from a copy of it that differs only in lead and signature data not covering header and payload content.',
 ['inputs', 'configurations'], 'all well-formed packages, passed as the old or as the new package, both delta types, all option combinations, re-signed variants of the source',
 'The tests create identity deltas but never apply one.',
 [S+'drpm.c', S+'drpm_make.c', S+'drpm_rpm.c'],
 [('fill_nodiff_deltarpm', S+'drpm_make.c'), ('rpm_replace_lead_and_signature', S+'drpm_rpm.c'), ('rpm_write', S+'drpm_rpm.c'), ('drpm_apply', S+'drpm.c')],
 observe=['drpm_apply return value', 'bytes of the written package'])
prop('C04', 'Installed files are a sufficient source for standard deltas',
 'When the old package is registered as installed and the regular files it lists for reconstruction are unchanged on disk, applying a standard delta without an old package file succeeds and writes exactly the new package. Files the package manager expects to change (configuration, ghost, missing-ok, or files excluded from verification) may be modified or missing without affecting the result, and a source package or an rpm-only delta is refused.',
 ['inputs', 'histories'], 'all packages and their on-disk states: file counts below and above the open-file limit, archive order unrelated to header order, skipped files in between, file sizes around block boundaries, modified excluded files; at most one installed package with the name, epoch, version and release of the source',
 'No test applies a delta to installed files.',
 [S+'drpm_block.c', S+'drpm.c', S+'drpm_rpm.c', S+'drpm_apply.c'],
 [('fillblock_filesystem', S+'drpm_block.c'), ('get_open_file', S+'drpm_block.c'), ('open_new_file', S+'drpm_block.c'), ('rpm_read_header', S+'drpm_rpm.c'), ('expand_sequence', S+'drpm_apply.c')],
 state=[('open file table', 'at most a fixed number of source files is open at once', S+'drpm_block.c')],
 observe=['drpm_apply return value', 'bytes of the written package'])
prop('C05', 'A successful application never yields anything but the recorded target',
 'If applying a delta reports success, the written file is exactly the package whose checksum the delta records. Applying a delta to a different package than the one it was made from, or to damaged source data or with a damaged delta, never reports success with a different result, and a wrong source package is reported as an error.',
 ['inputs'], 'all pairings of deltas with source packages that differ in name, version, file metadata or payload, and all corruptions of source and delta bytes',
 'The tests apply each delta to the right package only.',
 [S+'drpm.c', S+'drpm_apply.c', S+'drpm_rpm.c', S+'drpm_read.c', S+'drpm_decompstrm.c'],
 [('drpm_apply final check', S+'drpm.c'), ('expand_sequence', S+'drpm_apply.c'), ('rpm_signature_get_md5', S+'drpm_rpm.c')],
 observe=['drpm_apply return value', 'bytes of the written package'])
prop('C06', 'Reading a delta reports exactly what it contains',
 'For every well-formed delta, every queryable item (version, type, compression, source and target name-version-release, sequence, target size, checksum, compression, parameters and header length, lead and signature, payload format offset, offset adjustments, internal and external copies, data lengths) equals the value stored in the file, with signed values reported consistently. Items that a version does not store are reported as zero or absent, and reading does not depend on which compression wraps the content.',
 ['inputs', 'configurations'], 'all well-formed deltas of versions 1 to 3, both types, all wrapping compressions, any number and size of copies, extreme field values',
 'The tests compare a few fields of eight deltas of the same package pair with values they themselves took from the library.',
 [S+'drpm.c', S+'drpm_read.c', S+'drpm_deltarpm.c', S+'drpm_decompstrm.c', S+'drpm_utils.c'],
 [('readdelta_rest', S+'drpm_read.c'), ('deltarpm_to_drpm', S+'drpm_read.c'), ('deltarpm_decode_comp', S+'drpm_deltarpm.c'), ('drpm_get_*', S+'drpm.c')],
 observe=['drpm_read', 'drpm_get_uint/ulong/ullong/string/ulong_array'])
prop('C07', 'Created deltas follow the deltarpm format and describe the new package',
 'Every delta that is created decodes, by an independent reader of the deltarpm format, to a complete and well-formed file of the requested version, type and compression whose recorded names, sizes, checksums, compression, header and offsets are those of the two packages. An independent application of the decoded instructions to the source data the format prescribes reproduces the new package exactly, using all stored copies and data.',
 ['inputs', 'configurations'], 'all package pairs and all option combinations',
 'The tests only check that the library reads back its own output, so a matching error in writer and reader (which breaks every other deltarpm tool) goes unnoticed, apart from two file hashes.',
 [S+'drpm_write.c', S+'drpm_make.c', S+'drpm_diff.c', S+'drpm_compstrm.c', S+'drpm_deltarpm.c', S+'drpm_rpm.c'],
 [('write_deltarpm', S+'drpm_write.c'), ('parse_cpio_from_rpm_filedata', S+'drpm_make.c'), ('deltarpm_encode_comp', S+'drpm_deltarpm.c'), ('rpm_find_payload_format_offset', S+'drpm_rpm.c')],
 observe=['bytes of the created delta'])
prop('C08', 'Valid deltas from any producer are applied correctly',
 'Every delta that is valid in the deltarpm format, whether or not this library would create it in that form, is applied to its source package to give exactly the target it describes. This covers versions 1 to 3, every permitted compression code and wrapping, copies in any order and length including empty and overlapping ones, add blocks, and targets recorded without a full checksum.',
 ['inputs'], 'all valid deltas: arbitrary copy programs over the source data, including backward jumps, repeated regions, zero-length and block-spanning copies (an empty copy that ends at the very start of the source excepted)',
 'The tests only apply deltas made by the library itself, whose copies are produced by one diff algorithm on two inputs.',
 [S+'drpm.c', S+'drpm_block.c', S+'drpm_read.c', S+'drpm_deltarpm.c', S+'drpm_compstrm.c'],
 [('drpm_apply', S+'drpm.c'), ('blocks_create', S+'drpm_block.c'), ('blocks_next', S+'drpm_block.c'), ('deltarpm_decode_comp', S+'drpm_deltarpm.c')],
 observe=['drpm_apply return value', 'bytes of the written package'])
prop('C09', 'Arbitrary bytes given as a delta are handled safely',
 'For every byte sequence presented as a delta, reading, checking and applying it return with a result or an error code in bounded time. They never access memory out of bounds, crash, or report success for content that violates the delta format in a field they interpret.',
 ['inputs'], 'all files up to the tested size, in particular structured mutations of valid deltas with every length, count and offset field set to extreme values, truncations, and corrupt compressed streams',
 'The tests use well-formed deltas only.',
 [S+'drpm_read.c', S+'drpm_decompstrm.c', S+'drpm_block.c', S+'drpm_apply.c', S+'drpm.c', S+'drpm_rpm.c'],
 [('readdelta_rest', S+'drpm_read.c'), ('decompstrm_read', S+'drpm_decompstrm.c'), ('expand_sequence', S+'drpm_apply.c'), ('rpm_replace_lead_and_signature', S+'drpm_rpm.c')],
 observe=['return values', 'sanitizer reports'])
prop('C10', 'Arbitrary bytes given as a package or sequence are handled safely',
 'For every byte sequence presented as an old or new package, and every string presented as a sequence identifier, making and applying deltas and checking sequences return with a result or an error code in bounded time. They never access memory out of bounds or crash.',
 ['inputs'], 'all files up to the tested size, in particular structured mutations of packages in lead, signature, header, compressed payload and archive entries, and arbitrary sequence strings',
 'The tests use two well-formed package pairs only.',
 [S+'drpm_rpm.c', S+'drpm_make.c', S+'drpm_search.c', S+'drpm_diff.c', S+'drpm_decompstrm.c', S+'drpm_apply.c', S+'drpm_block.c'],
 [('rpm_read', S+'drpm_rpm.c'), ('rpm_get_file_info', S+'drpm_rpm.c'), ('cpio_header_read', S+'drpm_make.c'), ('decompstrm_read_until_eof', S+'drpm_decompstrm.c'), ('expand_sequence', S+'drpm_apply.c')],
 observe=['return values', 'sanitizer reports'])
prop('C11', 'A sequence identifies exactly the source package it was made from',
 'The sequence identifier written when a delta is made, and the one reported when it is read, name the source package and are accepted for it, from its file or from the installed package database. Any identifier that names another package, or whose digest or file order does not match the metadata of the package (order, names, modes, sizes, device numbers, link targets or digests of the files), is rejected.',
 ['inputs'], 'all packages and file orders, all single changes of file metadata, all changes of identifier characters',
 'The tests check the sequences of two packages whose files are in order, without a mismatching one.',
 [S+'drpm_make.c', S+'drpm_apply.c', S+'drpm.c', S+'drpm_write.c', S+'drpm_utils.c'],
 [('seq_add', S+'drpm_make.c'), ('expand_sequence', S+'drpm_apply.c'), ('drpm_check_sequence', S+'drpm.c'), ('write_seqfile', S+'drpm_write.c')],
 observe=['drpm_check_sequence return value', 'sequence file content', 'sequence string of a read delta'])
prop('C12', 'The on-disk check predicts whether reconstruction can work',
 'For a standard delta of an installed package, the full check succeeds exactly when every regular non-empty file the delta relies on is present and starts with the recorded content, and the size check succeeds exactly when every such file has the recorded size. Otherwise they report an error, a package that is not installed is reported as such, and whenever the full check succeeds the application from disk succeeds as well.',
 ['inputs', 'histories'], 'all packages and all on-disk modifications (changed byte, truncated, extended, removed, replaced by directory or special content such as ELF headers) of participating and excluded files, in both check modes, from a delta or from a sequence identifier',
 'No test calls the check on installed files.',
 [S+'drpm_apply.c', S+'drpm.c', S+'drpm_rpm.c'],
 [('check_full', S+'drpm_apply.c'), ('check_filesize', S+'drpm_apply.c'), ('is_prelinked', S+'drpm_apply.c'), ('drpm_check', S+'drpm.c'), ('rpm_read_header', S+'drpm_rpm.c')],
 observe=['drpm_check return value', 'drpm_check_sequence return value'])
prop('C13', 'Make options behave as a settable record of values',
 'After any sequence of option calls, a delta is made as if only the last accepted value of each option had been set on fresh defaults: fresh, reset, or absent options are equivalent, copies are independent of their source, and combinations the format cannot express are refused. A call with an invalid value is rejected and changes nothing.',
 ['histories', 'configurations'], 'all sequences of option calls over several option objects, with valid and invalid arguments, observed through the deltas made with them',
 'The tests set each option a few times in a fixed order and do not look at the effect of copy, reset or rejected calls.',
 [S+'drpm_options.c', S+'drpm.c'],
 [('drpm_make_options_*', S+'drpm_options.c'), ('drpm_make', S+'drpm.c')],
 state=[('make options', 'type, version, delta compression and level or from-package, add block, sequence file, patches', S+'drpm_options.c')],
 observe=['return values of the option calls', 'bytes of the delta made with the options', 'sequence file'])
prop('C14', 'Failing I/O or memory never turns into a wrong success',
 'If an allocation, a read, a write, an open or a seek fails at any point, or the output medium fills up at any byte, the call returns an error, or it returns success and all its outputs are exactly those of an undisturbed run. It never crashes, and the same call succeeds with correct output once the fault is gone.',
 ['fault_sequences', 'crash_points'], 'every call of making, applying, reading and checking, for both delta types, with a fault at each reachable allocation or system call and with the output size limited at each byte position class',
 'The tests run without faults.',
 [S+'drpm_write.c', S+'drpm_read.c', S+'drpm_rpm.c', S+'drpm_compstrm.c', S+'drpm_decompstrm.c', S+'drpm_block.c', S+'drpm_diff.c', S+'drpm_search.c', S+'drpm.c'],
 [('error returns and cleanup labels', S+'drpm.c'), ('write_deltarpm', S+'drpm_write.c'), ('write_seqfile', S+'drpm_write.c'), ('rpm_write', S+'drpm_rpm.c')],
 observe=['return values', 'output files', 'sanitizer reports'])
prop('C15', 'No call leaks memory, descriptors or temporary files',
 'After any call that succeeds, and once the objects it returned are destroyed, no memory, file descriptor or temporary file that it acquired remains. The same holds after any call that fails because of its arguments, its input files or the source on disk.',
 ['histories', 'inputs'], 'all sequences of calls with valid, mismatching and malformed inputs, repeated in one process',
 'One test run under valgrind covers the successful calls of the fixed tests and hardly any failing one.',
 [S+'drpm.c', S+'drpm_read.c', S+'drpm_write.c', S+'drpm_rpm.c', S+'drpm_make.c', S+'drpm_block.c', S+'drpm_compstrm.c', S+'drpm_decompstrm.c', S+'drpm_options.c', S+'drpm_apply.c'],
 [('cleanup labels', S+'drpm.c'), ('rpm_destroy', S+'drpm_rpm.c'), ('free_deltarpm', S+'drpm_deltarpm.c'), ('blocks_destroy', S+'drpm_block.c'), ('decompstrm_destroy', S+'drpm_decompstrm.c'), ('compstrm_destroy', S+'drpm_compstrm.c')],
 observe=['allocated bytes of the process', 'open descriptors', 'files in the temporary directory'])
prop('C16', 'The choice of compression never changes the content of a delta',
 'Deltas of the same packages that differ only in the compression method or level of the delta or of the add block decode, by the stock decompressors, to the same instructions and data, and each is stored with exactly the requested method at the requested level. Payloads of target packages in every supported method and level from 1 to the highest are recompressed to the original bytes, whatever their size.',
 ['inputs', 'configurations'], 'all methods and levels for delta and add block crossed with payload sizes from empty to several compressor buffers and contents from constant to incompressible',
 'The tests use each method once or twice on small packages and only xz targets.',
 [S+'drpm_compstrm.c', S+'drpm_decompstrm.c', S+'drpm_deltarpm.c', S+'drpm_write.c'],
 [('compstrm_init', S+'drpm_compstrm.c'), ('writechunk_*', S+'drpm_compstrm.c'), ('finish_*', S+'drpm_compstrm.c'), ('readchunk_*', S+'drpm_decompstrm.c')],
 observe=['bytes of the created delta', 'bytes of the rebuilt package'])
prop('C17', 'Results depend only on the inputs, and inputs are left alone',
 'Repeating a call with the same inputs and options gives the same return value and the same output bytes, whatever calls, successful or failing, came before it in the process, whatever the names and places of the files, and whatever was in the output file before. No call modifies a file it only reads.',
 ['histories', 'inputs'], 'all interleavings of make, apply, read, check and option calls on several inputs in one process, compared with fresh processes, and all prior contents of output files',
 'The tests run each call once per process state and never compare two outputs of the same call.',
 [S+'drpm.c', S+'drpm_write.c', S+'drpm_rpm.c', S+'drpm_diff.c', S+'drpm_search.c', S+'drpm_make.c'],
 [('drpm_make', S+'drpm.c'), ('drpm_apply', S+'drpm.c'), ('suffix sort and hash search', S+'drpm_search.c')],
 observe=['return values', 'output bytes', 'input bytes'])
prop('C18', 'Calls reject bad arguments and unknown tags with a defined error',
 'Every call given a required null pointer, an undefined mode, an option value out of range, or a combination that is not allowed returns an error code, leaves the variable or object it would set untouched, and does not crash. Each information item is available through exactly the value kinds it is documented for, and every error code, defined or not, has a message.',
 ['inputs', 'histories'], 'all functions with all combinations of null and non-null arguments, all tag and mode values in a wide range, all value kinds, in any order',
 'The tests try a few null arguments and tags per function.',
 [S+'drpm.c', S+'drpm_options.c'],
 [('argument checks', S+'drpm.c'), ('argument checks', S+'drpm_options.c'), ('drpm_strerror', S+'drpm.c')],
 observe=['return values', 'target variables'])
prop('C19', 'Source size and access pattern do not matter for reconstruction',
 'Applying a delta gives exactly the described target also when the source data is much larger than what is kept in memory at once, when regions are revisited any number of times at any distance, and when copies run over many blocks. This holds for package files and for installed files alike.',
 ['inputs', 'histories'], 'all copy programs over source data of up to and beyond the in-memory limit: sequential, backward, random, repeated and clustered accesses',
 'The tests use sources of a few dozen kilobytes, far below the in-memory limit, so the paging of blocks never happens.',
 [S+'drpm_block.c', S+'drpm.c'],
 [('blocks_create', S+'drpm_block.c'), ('blocks_next', S+'drpm_block.c'), ('push_block', S+'drpm_block.c'), ('read_page_block/write_page_block', S+'drpm_block.c')],
 state=[('block cache', 'core blocks, page file, and next-use order of blocks', S+'drpm_block.c')],
 observe=['drpm_apply return value', 'bytes of the written package'])
prop('C20', 'Patch information only removes unusable files from the source',
 'Making a standard delta with a print and a patch list of the old package excludes from the source exactly the files the print marks as unpatched whose content differs from the one recorded in the patch list, and the delta still rebuilds the new package. Lists that name another package or are damaged are refused with an error.',
 ['inputs', 'configurations'], 'all well-formed and damaged prints and patch lists for all packages',
 'No test makes a delta with patch information.',
 [S+'drpm_make.c', S+'drpm_options.c', S+'drpm.c'],
 [('patches_read', S+'drpm_make.c'), ('read_rpmlist', S+'drpm_make.c'), ('is_unpatched', S+'drpm_make.c'), ('patches_check_nevr', S+'drpm_make.c')],
 observe=['drpm_make return value', 'sequence and copies of the created delta'])
prop('C21', 'A damaged package is refused or rebuilt exactly as it is',
 'Making a delta from a package whose compressed payload is cut short or does not decompress is refused with an error. If a delta is made to a new package whose header or archive entries are inconsistent or malformed and whose payload the stock compressor reproduces, applying it rebuilds exactly that package.',
 ['inputs'], 'all cuts and bit changes of payloads in every compression method, and all mutations of header fields and archive entries of the new package, for both delta types',
 'The tests use well-formed packages only.',
 [S+'drpm_decompstrm.c', S+'drpm_rpm.c', S+'drpm_make.c', S+'drpm.c'],
 [('decompstrm_read_until_eof', S+'drpm_decompstrm.c'), ('readchunk_*', S+'drpm_decompstrm.c'), ('rpm_read_archive', S+'drpm_rpm.c'), ('parse_cpio_from_rpm_filedata', S+'drpm_make.c')],
 observe=['drpm_make return value', 'bytes of the rebuilt package'])
prop('C22', 'A delta stores only what the new package does not share with the old one',
 'Every run of at least 512 bytes of content that does not resemble other content, is longer than the changed data before it, and lies both in the new payload and in the source of the delta, at whatever places, is taken from the source by copies, up to a few bytes at its ends. This holds for standard and rpm-only deltas, with and without add block, and for payloads of any size. The data stored in the delta do not exceed the changed content plus the archive entries, the header of an rpm-only delta, and a small constant for each change.',
 ['inputs', 'configurations'], 'all package pairs that share runs of random content at any offsets, moved, duplicated, cut or interleaved with fresh data, with files excluded from the source or not',
 'The tests never look at how large a delta is or what it stores; a delta that stores the whole new package still rebuilds it.',
 [S+'drpm_diff.c', S+'drpm_search.c', S+'drpm_make.c'],
 [('make_diff', S+'drpm_diff.c'), ('hash_create', S+'drpm_search.c'), ('hash_search', S+'drpm_search.c'), ('create_diff_copies', S+'drpm_diff.c')],
 observe=['internal and external copies of the created delta', 'length of the stored data'])
prop('C23', 'The error of a failing call tells what went wrong',
 'A call that fails because memory runs out returns DRPM_ERR_MEMORY, one that cannot open, read, seek or write a package, delta or installed file returns DRPM_ERR_IO, and one given as package or delta a file that is empty, foreign, cut short or has compressed data that cannot be decompressed returns DRPM_ERR_FORMAT. A source package other than the one the delta was made from, or a changed installed file, gives DRPM_ERR_MISMATCH, and a source package that is not installed DRPM_ERR_NOINSTALL. No input makes a call return DRPM_ERR_PROG.',
 ['inputs', 'fault_sequences', 'histories'], 'every single failing allocation, read, write, open and seek of every operation; every role of a package, delta and output times every way of being unusable; all cuts; all damage to compressed payloads; histories of calls with damaged inputs; failing reads of patch lists excepted',
 'The tests look at the error of a few calls with null or undefined arguments; which code a failure deep inside an operation ends in depends on the place where it strikes.',
 [S+'drpm.c', S+'drpm_rpm.c', S+'drpm_read.c', S+'drpm_decompstrm.c', S+'drpm_block.c', S+'drpm_make.c', S+'drpm_write.c', S+'drpm_apply.c'],
 [('error codes', S+'drpm.h'), ('rpm_read', S+'drpm_rpm.c'), ('readdelta_standard/readdelta_rpmonly', S+'drpm_read.c'), ('decompstrm_init', S+'drpm_decompstrm.c'), ('fillblock_*', S+'drpm_block.c'), ('check_full/check_filesizes', S+'drpm_apply.c')],
 observe=['return values'])
prop('C24', 'Applying and checking deltas takes bounded memory and few open files',
 'While a delta is applied, the memory in use grows with the delta, the package lists and the new package, but not with how much of the installed files or of the old package (which itself is read into memory) the delta uses, of which a fixed amount is kept (5000 blocks of 8 KiB, the rest is read again or goes to a temporary file), and no more than 50 installed files are open at once. A check of a delta against installed files, full or by size, takes a fixed amount of memory and one open file at a time, whatever the size and number of the files.',
 ['inputs', 'histories'], 'installed packages, or old package files with standard and rpm-only deltas, with up to 1200 files or 120 MB of content; every kind of access pattern, in which more blocks are needed again than may be kept; real limits and a build with small ones; both checks; descriptors limited to what the statement allows',
 'The tests apply small packages, all of which fit in memory, and never measure memory or count descriptors; a cache that is never emptied gives correct results until memory runs out.',
 [S+'drpm_block.c', S+'drpm_apply.c', S+'drpm.c'],
 [('get_block/push_block/write_page_block', S+'drpm_block.c'), ('open_new_file/get_open_file', S+'drpm_block.c'), ('check_full/check_filesize', S+'drpm_apply.c')],
 observe=['return values', 'heap use at its highest moment', 'success with few descriptors'])
prop('C25', 'Calls made in several threads at once do not disturb each other',
 'Programs that create, apply, read, query and check deltas in several threads at once (each thread with outputs, option records and handles of its own, or sharing records and handles that are only read) get from each call the return value, files and values that the call gives alone. The library keeps no state between or outside the objects passed to it: no call reads or writes memory that a call in another thread writes. Every input, valid or damaged, and every schedule included; use of the package database, which librpm restricts, is excepted.',
 ['inputs', 'schedules'], 'two to six threads with one to four calls each, of the same kind and mixed, on the same and on different packages and deltas of all types, versions and compression methods, valid and damaged; several rounds of schedules each; builds with the real and with small block limits',
 'The tests are single threaded programs; state that is accidentally shared gives right results there, and a schedule that shows the damage is rare without a race detector.',
 [S+'drpm.c', S+'drpm_make.c', S+'drpm_apply.c', S+'drpm_read.c', S+'drpm_block.c', S+'drpm_diff.c', S+'drpm_search.c', S+'drpm_rpm.c', S+'drpm_utils.c', S+'drpm_options.c'],
 [('drpm_make/drpm_apply/drpm_read/drpm_check_sequence', S+'drpm.c'), ('get_block', S+'drpm_block.c'), ('noise', S+'drpm_search.c'), ('compstrm_*', S+'drpm_compstrm.c'), ('decompstrm_*', S+'drpm_decompstrm.c')],
 observe=['return values', 'written files', 'values of the query functions', 'data races reported for the library'])
with open(__file__.rsplit('/', 1)[0] + '/properties.jsonl', 'w') as fh:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        assert p['statement'].count('. ') <= 2
        fh.write(json.dumps(p) + '\n')
print(len(P))
