prop('C01', 'Path predicates are total and agree with POSIX name resolution',
     'exists, is_file, is_dir, is_symlink, is_broken_symlink and exists_not_symlink never raise on dangling links, symlink loops, links through files or missing components, and answer exactly what POSIX resolution of that path gives; a broken symlink is precisely a link that does not resolve. Errors of any other kind (permission, name too long) are raised, not turned into an answer. readlink returns the stored target verbatim (str or pure path), resolve returns the canonical path of whatever exists and never hangs, and access answers exactly what the permission bits grant the user.',
     ['inputs', 'configurations'],
     'every symlink graph over a bounded set of names, every query path through it, absolute and relative, every permission combination',
     'tests build a handful of links and one self loop; the predicates must be right for every topology of links, including loops entered half way and links through files.',
     ['augpathlib/core.py'],
     [('exists/is_file/is_dir/is_symlink overrides that swallow ENOENT/ENOTDIR/EBADF/ELOOP only', 'augpathlib/core.py AugmentedPath'),
      ('is_broken_symlink, exists_not_symlink, readlink, resolve, access', 'augpathlib/core.py AugmentedPath')],
     observe=['return values of the predicates'],
     technique='explicit-state enumeration of symlink graphs, lockstep with a reference POSIX resolver on the real code',
     note='Every symlink graph over 3 (thorough 4) names with 13+ node kinds; the reference resolver is checked against the OS on each query.')

prop('C02', 'rmtree removes exactly the named tree and nothing that is guarded',
     'rmtree removes the named tree completely and changes nothing outside of it: symlinks are unlinked, never followed. Relative paths, top level paths, home directories and the current directory are refused with WillNotRemovePathError before anything is touched, however the path is spelled (.., symlinked parents, doubled slashes), unless DANGERZONE is exactly True. When individual removals or listings fail, the error propagates by default, with ignore_errors everything removable is removed and nothing raised, and with onerror every entry that had to stay is reported exactly once with the function that failed.',
     ['inputs', 'fault_sequences', 'configurations'],
     'every tree shape up to a size over all entry kinds, every single and pair of failing unlink/rmdir/list calls, every error mode, every spelling of every guarded path',
     'tests remove a few fixed trees and never make a removal fail; the guard, symlink and error clauses quantify over all trees, spellings and fault positions.',
     ['augpathlib/core.py', 'augpathlib/repo.py'],
     [('AugmentedPath.rmtree guards and recursion', 'augpathlib/core.py'), ('RepoPath.rmtree', 'augpathlib/repo.py')],
     observe=['file system before/after', 'audit events', 'onerror calls'],
     technique='exhaustive tree enumeration x exhaustive fault placement on the real code, compared with a removal model',
     note='All trees <= 4 (thorough 5) nodes, every single fault and pairs on small trees; no concurrent modification.')

prop('C03', 'rmdirtree removes exactly the hollow directories',
     'rmdirtree removes exactly those directories whose whole subtree consists of directories (as find -type d -empty -delete does), including the starting directory, and never removes a file, link, fifo or a directory containing one, nor anything reached through a symlink; a symlink as starting point is refused with NotADirectoryError. This holds also when a directory cannot be listed or removed, and when a file appears while it runs.',
     ['inputs', 'fault_sequences', 'schedules'],
     'every tree shape up to a size, each directory in turn unreadable or unremovable, a file appearing in each directory before each removal',
     'the test prunes one tree; the set of hollow directories depends on every combination of nesting and entry kinds and on when a concurrent writer acts.',
     ['augpathlib/core.py'], [('AugmentedPath.rmdirtree', 'augpathlib/core.py')],
     observe=['file system before/after'],
     technique='exhaustive tree enumeration x fault/interference placement on the real code, compared with a pruning model',
     note='All trees <= 5 (thorough 6) nodes.')

prop('C04', 'swap is all or nothing',
     'swap and swap_carefree exchange what is at two existing paths completely (whatever their types, relative or absolute, same or different directory), or raise and leave both paths and their directories exactly as they were, with no stray files or open descriptors. swap raises FileNotFoundError when either path does not exist. At every point during the operation, including after a failure at any step, the content of both paths still exists somewhere.',
     ['inputs', 'fault_sequences', 'crash_points'],
     'every pair of entry types, relative position and spelling, every failing file system call, every crash point of the non-atomic fall-back',
     'the test swaps two pairs of existing absolute paths; the fall-back is only exercised once and never with a failing step.',
     ['augpathlib/core.py', 'augpathlib/swap.py'],
     [('AugmentedPath.swap / swap_carefree', 'augpathlib/core.py'), ('swap_linux renameat2', 'augpathlib/swap.py')],
     observe=['inodes and content at both paths', 'every audit event'],
     technique='exhaustive configuration enumeration with crash-point and fault enumeration on the real code',
     note='All type pairs x positions x spellings; every single (thorough: pair of) failing call of the fall-back.')

prop('C05', 'Directory context: with, pushd and popd always return to the right place',
     'Entering a path object with "with" makes it the current directory, and leaving the block, normally or by an exception, restores the directory that was current when that block was entered, for every nesting of absolute, relative and repeated path objects. pushd and popd behave as a directory stack: popd returns to the directory of the matching pushd (popd(n) to the one n further down, IndexError when there is no such entry, nothing when the stack is empty). An operation that fails leaves the current directory and the stack as they were.',
     ['programs', 'histories'],
     'every program of enter, leave, raise, pushd, popd and chdir operations up to a depth over several path objects, including ones that are not directories',
     'tests enter a context once; nesting, reuse of one object, exceptions and failing pushd need sequences of operations.',
     ['augpathlib/core.py'],
     [('AugmentedPath.__enter__/__exit__/chdir/pushd/popd', 'augpathlib/core.py')],
     state=[('_stack', 'directories to return to', 'AugmentedPath')],
     observe=['os.getcwd()', 'exceptions'],
     technique='explicit-state exploration of all operation programs up to a depth, lockstep with a reference stack machine on the real code',
     note='All programs <= 4 (thorough 5) operations over 6 path objects.')

prop('C06', 'Relative path algebra',
     'relative_path_to and relative_path_from give a relative path that leads from the directory of the one path to the other (usable as the text of a symlink placed there), commonpath gives the longest common ancestor, and these agree with each other for every pair of paths without .. components. Mixing absolute and relative paths is an error (ValueError), never a wrong answer.',
     ['inputs'],
     'every pair of paths over a component alphabet up to a length, absolute and relative, of every path class',
     'tests compare a couple of fixed pairs; prefix-of-a-name, ancestor, equal and root cases only show when all pairs are tried.',
     ['augpathlib/core.py', 'augpathlib/utils.py'],
     [('relative_path_from, relative_path_to, commonpath', 'augpathlib/core.py')],
     observe=['returned paths', 'resolution of a real symlink made of them'],
     technique='exhaustive enumeration of path pairs against a lexical model, validated by following a real symlink',
     note='All pairs of paths of <= 4 components over a 3 letter alphabet.')

prop('C07', 'Copying never destroys: no overwrite without force, bytes preserved',
     'copy_to, copy_from, copy_outto and copy_infrom make the target byte for byte equal to the source (empty files included), refuse with PathExistsError to replace anything that exists at the target (including a dangling symlink) unless force is given, and never change the source. If the source cannot be read, is the same file, or its data fails before the first chunk, the target keeps its old content. Assigning data rewrites the content of the same file (inode and extended attributes stay).',
     ['inputs', 'configurations', 'fault_sequences'],
     'every combination of path class, method, kind of source, kind of target and force, with every read of the source failing',
     'tests copy one file onto nothing; what exists at the target, being the same file under another name and failures on reading are not sampled.',
     ['augpathlib/core.py', 'augpathlib/remotes.py'],
     [('copy_to, copy_from, copy_outto, copy_infrom', 'augpathlib/core.py'), ('LocalPath.data setter, copy_from', 'augpathlib/core.py')],
     observe=['file content, inode and xattrs of source and target'],
     technique='exhaustive configuration and fault enumeration on the real code against a copy model',
     note='All source kind x target kind x force x method x class combinations, each read/open failing in turn.')

prop('C08', 'Reading data by ranges returns exactly the requested bytes',
     'Iterating over the data of a file, whole or by a list of byte ranges and with whatever chunk size, yields exactly those bytes of the file in the order of the ranges, and each piece is at most one chunk long.',
     ['inputs'],
     'every file size, chunk size and list of up to 3 ranges out of the boundary values',
     'tests read with one chunk size; off by one errors live where ranges meet multiples of the chunk size and the end of the file.',
     ['augpathlib/core.py'], [('LocalPath._data', 'augpathlib/core.py')],
     observe=['yielded chunks'],
     technique='exhaustive enumeration of sizes, chunk sizes and ranges on the real code against slicing',
     note='Sizes up to 3 chunks + 1, every range (pair, thorough triple) over the boundary set; end is exclusive; start None-relative tail ranges included.')

prop('C09', 'Checksums and etags depend on content only, not on chunking',
     'The etag of a byte string for a part size is the md5 of the md5 digests of its parts together with their number, however the bytes are divided among update calls and whether or not digest was called before; the etag and checksum of a file do not depend on the size of the chunks in which it is read. A part size below one is refused.',
     ['inputs', 'histories'],
     'every division of every data length around the part boundaries into update calls, with early digests at every position and every reader chunk size',
     'tests feed one large random file in one way; boundary handling between updates and parts needs all divisions.',
     ['augpathlib/utils.py', 'augpathlib/core.py'], [('etag.update / digest', 'augpathlib/utils.py'), ('LocalPath.checksum / etag', 'augpathlib/core.py')],
     observe=['digests'],
     technique='exhaustive enumeration of update sequences on the real code against a direct definition',
     note='All compositions of data of up to 9 (thorough 11) bytes, part sizes 1 to 5.')

prop('C10', 'Metadata of a local file always describes the file as it is now',
     'Reading the metadata, size or etag of a path object describes the file as it is at that moment (size, timestamps, checksum, inode, owner, mode), however often and in whatever form it was read before and whatever happened to the file in between: content changed, replaced by another file, touched, timestamps set back, mode changed, removed, turned into a directory or a link. The checksum is the digest of the current content, and reading metadata without a checksum does not cause a later reading to lack it.',
     ['histories'],
     'every sequence of reads and changes up to a depth on one long lived path object',
     'tests read metadata once per object; stale caching needs read, change, read sequences with specific timestamps.',
     ['augpathlib/core.py', 'augpathlib/remotes.py'], [('LocalPath.meta / meta_no_checksum / _meta cache', 'augpathlib/core.py')],
     state=[('_meta, _meta_mtime and the like', 'cached metadata and the times it was taken', 'LocalPath')],
     observe=['returned metadata', 'stat and hashlib of the file'],
     technique='explicit-state exploration of all read/change programs up to a depth, lockstep with stat and hashlib',
     note='All programs <= 4 (thorough 5) over 16 operations.')

prop('C11', 'Metadata is a value: equality, hashing, copying, access by name',
     'Two metadata objects are equal exactly if all their fields are equal, in both directions, independent of the order in which fields were given or read and of whether timestamps were given as text or as objects; equal objects hash alike when they can be hashed. Access by attribute, by key, by iteration, copying and pickling all give the same values, and an object is true exactly if some field is set.',
     ['inputs', 'histories'],
     'every pair of fields, every combination of values, every order of first accesses, every pair of resulting objects',
     'tests compare two or three objects; symmetry and order independence quantify over pairs of objects.',
     ['augpathlib/meta.py'], [('PathMeta.__eq__, __getitem__, items, fromPathMeta', 'augpathlib/meta.py')],
     observe=['==, hash, bool, items, copy, pickle'],
     technique='exhaustive enumeration of field/value combinations and pairs on the real code',
     note='All pairs of fields x values x representations.')

prop('C12', 'Metadata stored as extended attributes comes back unchanged',
     'Metadata written as extended attributes (with or without a prefix) to a real file, or kept as encoded attributes, is read back with every field equal, including multi valued, binary, zero, timestamp and error fields (empty text counts as not set); foreign attributes are ignored. What could not be given back is refused when it is written and never silently altered.',
     ['inputs'],
     'every set of present fields with every combination of values of up to two of them, under several prefixes',
     'tests round trip one or two objects; 17 fields with special encodings interact only in certain combinations.',
     ['augpathlib/meta.py'], [('_PathMetaAsXattrs encode/decode', 'augpathlib/meta.py'), ('PathMeta.as_xattrs / from_xattrs', 'augpathlib/meta.py')],
     observe=['xattrs on disk', 'decoded metadata'],
     technique='exhaustive enumeration of field sets and values on the real code through a real file',
     note='All field sets of size <= 3 and complements (thorough: all 2^17 sets).')

prop('C13', 'Metadata stored in a symlink target comes back unchanged or is refused',
     'Metadata encoded as the target of a symlink is read back with every field equal, whatever characters its values contain, or is refused when it is written. Every published version of the format can still be read, and a link that belongs to another local name is rejected with CircularSymlinkNameError, and links that the library did not make are not metadata (NoCachedMetadataError).',
     ['inputs'],
     'every text over the separators and escapes of the format up to a length in every text field, every set of fields with every value, every version of the format',
     'tests round trip a few ordinary values; separators inside values and absent trailing fields are where an ad hoc text format fails.',
     ['augpathlib/meta.py', 'augpathlib/caches.py'], [('_PathMetaAsSymlink encode_meta / from_parts / from_symlink', 'augpathlib/meta.py')],
     observe=['link text', 'decoded metadata'],
     technique='exhaustive enumeration of field sets, values and strings over the delimiter alphabet, through real symlinks',
     note='All strings <= 2 (thorough 3; +1 for id, name, errors) over 14 characters in 8 fields; field sets <= 3 and complements.')

prop('C14', 'Merging new remote metadata into cached metadata',
     'When metadata from the remote is merged into the metadata cached for a path, every value the remote gives replaces the cached one, values it does not give are kept unless the content changed (created, updated, size, checksum or file id differ from a value cached before), in which case values that describe the old content, errors included, are dropped. When the id changes the previous id is recorded as old id. What is then read back from disk is exactly the merged metadata, merging the same again changes nothing, and the merge reports whether the content changed.',
     ['inputs', 'histories'],
     'every combination of absent, same and different values of two (thorough three) fields, over several bases of the others',
     'tests merge a few pairs; which value survives depends on combinations of absent and changed fields, and on what is removed from disk.',
     ['augpathlib/caches.py'],
     [('PrimaryCache._update_meta / _meta_updater', 'augpathlib/caches.py'), ('EatCache._meta_setter', 'augpathlib/caches.py')],
     observe=['metadata read back from disk', 'xattrs', 'return value'],
     technique='exhaustive enumeration of old/new metadata pairs on the real code in lockstep with a merge model',
     note='Directories only, so that no data has to be fetched; files are covered by C17 and C19.')

prop('C15', 'Showing and comparing metadata leaves nothing out',
     'The readable form of metadata lists every field that is set exactly once with its value; the readable difference of two metadata objects lists every field that is set in either, with both values where they differ, whatever path or title is given. content_different says exactly whether the content of a file is not what its cached metadata describes.',
     ['inputs'],
     'every pair of fields with every combination of values in the two objects, every combination of cached and local size and checksum',
     'tests never look at the output; a field lost from a report quantifies over all field combinations.',
     ['augpathlib/meta.py', 'augpathlib/core.py'],
     [('_PathMetaAsPretty, as_pretty_diff', 'augpathlib/meta.py'), ('LocalPath.content_different', 'augpathlib/core.py')],
     observe=['text returned', 'content_different'],
     technique='exhaustive enumeration of pairs of metadata objects on the real code',
     note='All pairs of fields, 3 values each.')

prop('C19', 'The local tree mirrors the remote, and following it never loses data',
     'A recursive bootstrap creates locally exactly the objects of the remote (directories, and placeholders for files), each with its metadata, and doing it again changes nothing. After the remote changes (content, emptied, touched, renamed, moved, deleted, added) refreshing and bootstrapping again makes the local tree mirror the remote again: fetched files have the new content, deleted objects are in the trash. Whatever the changes and the order in which the client follows them, no fetched bytes are lost, they are at their path or in the trash.',
     ['histories', 'programs', 'configurations'],
     'every remote tree up to a size, every sequence of changes up to a depth, with and without fetched files, every plan of the client',
     'tests do one bootstrap of a fixed tree; divergence and data loss need specific combinations of moves, renames, deletions and name reuse.',
     ['augpathlib/caches.py', 'augpathlib/remotes.py', 'augpathlib/core.py'],
     [('_CachePath.bootstrap / _bootstrap_recursive / refresh / move / crumple', 'augpathlib/caches.py'),
      ('RemotePath.update_cache / cache_init / _cache_setter', 'augpathlib/remotes.py'),
      ('RepoPath/LocalPath.rchildren, cache_init', 'augpathlib/core.py')],
     state=[('local tree with metadata', 'what has been mirrored', '_CachePath'), ('remote objects', 'in-memory reference remote', 'harness')],
     observe=['local tree, content and metadata on disk', 'trash'],
     technique='explicit-state exploration of all remote change sequences and client plans on the real code against an in-memory remote',
     note='All trees <= 3 (thorough 5) objects x 1 change, a tree of 5 objects x 2 changes; collisions and bottom up refresh are checked for loss of data only.')

prop('C17', 'Fetching and updating content is all or nothing',
     'Fetching or refreshing a cached file ends either with exactly the content and metadata of the remote at its path, or with an error and the path as it was before (a placeholder stays a placeholder with its metadata, fetched content stays or is in the trash). Refreshing never overwrites or loses local modifications, and fetching leaves alone what is larger than the given size limit. This holds whatever the remote serves (hanging up after any number of bytes, other bytes than the checksum says) and whichever file system operation fails, and if the process dies at any point nothing that was there is lost; content of the right size that does not match its checksum is only ever there with metadata that says so (error checksum-mismatch).',
     ['inputs', 'faults', 'crash_points'],
     'every start x content x operation, every single file system fault, every remote fault, every crash point (thorough: pairs of faults); every start x size x limit around it',
     'tests fetch once from a remote that works; loss of data needs a failure or a crash at one specific operation.',
     ['augpathlib/caches.py', 'augpathlib/core.py'],
     [('_CachePath.fetch / refresh / crumple / validate_file', 'augpathlib/caches.py'), ('SymlinkCache meta setter', 'augpathlib/caches.py'),
      ('LocalPath data setter', 'augpathlib/core.py')],
     state=[('path', 'placeholder, content, metadata', '_CachePath'), ('trash', 'old versions', '_CachePath.crumple')],
     observe=['bytes and metadata on disk after each fault or crash', 'errors raised'],
     technique='exhaustive fault and crash point enumeration on the real code',
     note='Files of <= 12 bytes in chunks of 4; one fault per execution (thorough: pairs).')

prop('C18', 'Moving a cached path never loses or overwrites anything',
     'Moving a cached file, placeholder or directory puts it, its content and its metadata at the target and leaves nothing at the source, creating the directories in between. Where something else is in the way (untracked files, other objects, foreign links, a directory for a file) the move is refused with an error and nothing changes, unless the remote says that an older object is replaced, which then goes to the trash. If any file system operation fails or the process dies at any point nothing is lost, a move that was not done raises and leaves what was in the way, and it can be done again.',
     ['inputs', 'faults', 'crash_points'],
     'every source x everything that can be at the target x both ways to give the target, every single file system fault and crash point (thorough: pairs of faults)',
     'tests move one file to a free place; overwriting and loss need something in the way or a failure in the middle.',
     ['augpathlib/caches.py', 'augpathlib/core.py'],
     [('_CachePath.move', 'augpathlib/caches.py'), ('LocalPath.mkdir_cache', 'augpathlib/core.py')],
     state=[('source and target', 'content and metadata', '_CachePath')],
     observe=['complete tree, content and metadata on disk after each execution', 'errors raised'],
     technique='exhaustive fault and crash point enumeration on the real code',
     note='5 sources, 19 targets, one fault per execution (thorough: pairs); the place in the trash is free.')

prop('C16', 'Metadata cached for a path is exactly what was put there and stays there',
     'Metadata put on a path is what every fresh object for that path reads, however the path is spelled and after the project is opened again, and nothing else in the project changes. A placeholder is given to another object only if that object is known to be newer, and the placeholder it replaces goes to the trash; otherwise it stays exactly as it was. A path without metadata reports that it has none, links that are not placeholders never get metadata, and metadata that was wiped is restored from the backup if there is one.',
     ['inputs', 'histories'],
     'every start x every sequence of metadata values up to length 3 over two ids, three timestamps and sizes, every way to read',
     'tests put one value on one path; the decision between two objects has many branches of missing and equal timestamps.',
     ['augpathlib/caches.py', 'augpathlib/core.py', 'augpathlib/meta.py'],
     [('PrimaryCache meta / _meta_setter / _meta_updater', 'augpathlib/caches.py'), ('SymlinkCache meta setter', 'augpathlib/caches.py'),
      ('EatCache meta / _meta_setter', 'augpathlib/caches.py'), ('LocalPath.cache', 'augpathlib/core.py')],
     state=[('path', 'placeholder or xattrs', '_CachePath')],
     observe=['metadata read by fresh objects', 'tree and xattrs on disk', 'trash'],
     technique='explicit-state exploration of all operation sequences on the real code against a model of the decision',
     note='54 values in pairs, 6 (thorough 12) values in triples.')


prop('C24', 'A path knows the repository it is in',
     'The working directory of a path is the nearest directory above it (or itself) that is a repository right now, whether or not the path exists, however it is spelled and from wherever it is asked; a path outside of any repository has none. This stays true after repositories are initialised, cloned, nested, removed and renamed, through this path object or any other. Initialising or cloning over an existing repository is refused and changes nothing.',
     ['inputs', 'histories'],
     'every sequence of up to 3 (thorough 4) operations on nested and sibling repositories (with a directory or a file .git), every path and spelling after each',
     'tests look at one repository; stale caches of repositories show up only after sequences of creating, removing and renaming.',
     ['augpathlib/repo.py'],
     [('RepoHelper.init / repo / working_dir', 'augpathlib/repo.py')],
     state=[('repositories', 'which repository object belongs to which directory', 'RepoHelper._repos')],
     observe=['working_dir, repo, relative paths and latest commits of all paths'],
     technique='explicit-state exploration of all operation sequences on the real code against a model of the directory tree',
     note='3 directories; repositories are not replaced behind the back of the library after it has used them.')

prop('C25', 'Committing a path commits that path and nothing else',
     'commit of a path makes a commit on top of the current head that differs from it in that path only, which has what is staged for it, and commit_from_working_tree does the same with what is in the working tree. What is staged or changed for any other path, the working tree and the stashes of the user stay exactly as they were, on branches, detached heads and branches without commits. add_index stages what the working tree has for the path and nothing else; staging or committing a file that is not there from the working tree is refused and changes nothing, whatever the path is called.',
     ['inputs'],
     'every state in head, index and working tree of the file and another file x kind of head x stash',
     'tests commit one file in a clean repository; other changes are lost or taken along only in specific states of the index and the stash.',
     ['augpathlib/repo.py'],
     [('RepoHelper.commit / commit_from_working_tree / add_index', 'augpathlib/repo.py')],
     state=[('index and working tree', 'state of each path', 'git')],
     observe=['trees of the commits', 'index entries', 'bytes and modes in the working tree', 'list of stashes'],
     technique='exhaustive enumeration of the states of two files on real repositories with the result read by plain git',
     note='Two files with up to 3 values each; no hooks; no merge in progress.')

prop('C26', 'Working on another branch in a with block leaves no trace',
     'In a "with ref" block the repository has exactly the files of that branch, and when the block ends, normally or with an exception, branch, head, index, working tree (including untracked and ignored files) and the stashes of the user are as they were before. Changes left in the block are kept in a stash. Blocks can be nested, including the same reference twice, and a reference that cannot be checked out is refused without changing anything.',
     ['inputs', 'histories'],
     'every state of a tracked file x other files x stash x reference, each with 20 programs in the block, nested up to 3 deep',
     'tests enter one block on a clean repository; the wrong stash is popped only if the block or the user stashed something.',
     ['augpathlib/repo_patch.py'],
     [('_Reference.__enter__ / __exit__', 'augpathlib/repo_patch.py')],
     state=[('reference', 'original branch and stash for every time it is entered', '_Reference')],
     observe=['branch, head, index, working tree, stashes at the start and end of each block'],
     technique='exhaustive enumeration of repository states and block programs on real repositories against a model',
     note='States git itself cannot restore from a stash are only required to stay in the stash.')


prop('C27', 'Version control answers about a path are true for that path',
     'For every path of a repository show(ref) is byte for byte the content at that ref, in the index or in the working tree; modified, indexed, has_uncommitted_changes and diff between any two versions say that there is a difference exactly if the two versions of that path differ, and commits and latest_commit are exactly the commits that changed that path. This does not depend on the characters of the name, on how the path is spelled or on any other file.',
     ['inputs', 'histories'],
     'every state of a file in HEAD~1, HEAD, index and working tree x 10 names x every pair of versions; 20 contents x 7 versions; every history of 3 (thorough 4) commits',
     'tests show one byte of one version; lost newlines, names that are patterns and comparisons with the index need specific inputs.',
     ['augpathlib/repo.py'],
     [('RepoHelper.show / diff / modified / indexed / has_uncommitted_changes', 'augpathlib/repo.py'), ('RepoHelper.commits / latest_commit', 'augpathlib/repo.py')],
     state=[('versions', 'content and mode in HEAD~1, HEAD, index, working tree', 'git')],
     observe=['bytes returned by show', 'diffs and their blobs', 'messages of commits'],
     technique='exhaustive enumeration of version states and short histories on real repositories against the enumerated values',
     note='No content filters; untracked files are not compared, as in git diff.')


prop('C20', 'Sparse is exactly what was marked and selected',
     'A path is sparse exactly if it or a directory above it is marked, whether it is there, missing or a placeholder, however it is spelled and from wherever it is asked; marking or clearing one path changes nothing else. Bootstrapping with only and skip touches nothing that is not selected, and brings everything of what is selected, except that objects given in sparse get only the included files and are marked.',
     ['inputs', 'histories'],
     'every sequence of marks up to depth 3 (thorough 4) on 13 paths in 4 classes; every tree <= 4 (thorough 5) objects x included files x only x skip x sparse',
     'tests mark one absolute directory; spelling, placeholders and combinations of selections are not covered.',
     ['augpathlib/core.py', 'augpathlib/caches.py'],
     [('EatPath._sparse_root', 'augpathlib/core.py'), ('_CachePath._bootstrap / _sparse_root', 'augpathlib/caches.py')],
     state=[('mark', 'extended attribute or marker file', 'EatPath, _CachePath')],
     observe=['is_sparse of all paths', 'local tree after bootstrap'],
     technique='explicit-state exploration of all operation sequences on the real code against a set of marks',
     note='Selection at the level of the object that is bootstrapped; recursion from the root is up to subclasses.')

prop('C21', 'Extended attributes of a path are a dictionary',
     'setxattr, setxattrs, getxattr, delxattr and xattrs of a path behave as a dictionary of bytes that belongs to that file: what was set is what every spelling of the path and the system report, and nothing else changes. Writing data and renaming keep the attributes, reading or removing what is not there raises NoStreamError (removing only if asked to), missing paths raise OSError and values that are not bytes are refused without any effect.',
     ['inputs', 'histories'],
     'every sequence of 38 operations up to depth 2 (thorough 3) on 3 paths, all keys read in all spellings',
     'tests set one attribute and read it.',
     ['augpathlib/core.py'],
     [('XattrHelper', 'augpathlib/core.py'), ('LocalPath data setter', 'augpathlib/core.py')],
     state=[('attributes', 'per file', 'file system')],
     observe=['os.getxattr', 'xattrs, getxattr', 'errors'],
     technique='explicit-state exploration of all operation sequences on the real code against a dictionary',
     note='Namespace user; no Windows streams.')


prop('C22', 'The project of a path is found and exactly what belongs to it is listed',
     'find_cache_root is the topmost cached directory above a path (or itself), whether the path is cached, ignored, missing or a placeholder, however it is spelled and from wherever it is asked, and None outside of a project. children and rchildren of a directory are exactly what is in it (below it), each once and without following links, except that the internal directories directly below the root of the project, and nothing else, are left out.',
     ['inputs'],
     'every subset of 4 nested cached directories x 18 paths x 7 working directories; every pair (thorough triple) of 10 names x 7 kinds of entries',
     'tests list one directory with absolute paths; the order of a set decided about relative ones.',
     ['augpathlib/core.py'],
     [('LocalPath.find_cache_root / skip_cache / children / rchildren', 'augpathlib/core.py')],
     state=[('cached directories', 'which directories have metadata', 'file system')],
     observe=['find_cache_root', 'skip_cache', 'children', 'rchildren'],
     technique='exhaustive enumeration of trees and spellings on the real code against os.walk',
     note='A link into the middle of a project may report the first cached directory as it was spelled.')


prop('C23', 'A zip file reads like the directory it contains',
     'A path inside of a zip file exists exactly if there is an entry for it or below it, its children and rchildren are exactly the entries below it, and reading it gives exactly the content of the last entry with that name, whatever the zip file is called, wherever it is and in whatever order members are read. Directories and missing members fail with the errors of the file system, files that are not zips (and missing ones) are ordinary paths. The answers are about the zip file that is at the path now, after changing the directory, rewriting or replacing it.',
     ['inputs', 'histories'],
     'every set of up to 3 (thorough 6) of 9 entries x 3 zip file names x 17 paths x absolute, relative, rewritten, replaced',
     'the test reads one member of one zip file.',
     ['augpathlib/zip.py'],
     [('ZipHelper', 'augpathlib/zip.py'), ('ZipInternalPath', 'augpathlib/zip.py')],
     state=[('opened zip files', 'entries by path', 'ZipHelper._zfc_cache')],
     observe=['exists, is_dir, children, rchildren, open, data'],
     technique='exhaustive enumeration of zip files and histories on the real code against the entries that were written',
     note='Zip files written by the zipfile module.')

prop('C28', 'A release always moves forward and knows what is in it',
     'The next version for any phase and component is newer than the version it was asked for, in the same epoch, in the requested phase and with the requested component incremented, or the transition is refused; this stays true for every sequence of bumps. The tag and version of a package are those of its own nearest release tag, never of a package with a similar name, and the commits since the last release are exactly those after that tag (all, if there was none) that touch its files. What pypi and github answered is kept, failures are not, and the command for a release consists of exactly the organisation, repository, folder, name and next version.',
     ['inputs', 'histories'],
     'every sequence of 2 (thorough 3) bumps from 112 versions x 12 phases x 4 components; every placement of 7 tags on a history x 2 layouts; every sequence of 3 answers of pypi and github; the command for every phase and component',
     'there are no tests of packages; order of versions and matching of tags depend on combinations.',
     ['augpathlib/package.py'],
     [('next_version / logic / cons_next', 'augpathlib/package.py'), ('PackagePath', 'augpathlib/package.py')],
     state=[('version', 'release, phase, counters', 'packaging'), ('tags', 'release tags in the history', 'git')],
     observe=['versions compared by packaging', 'tag, version_tag, commits_since_last_release, versions of given pypi and github answers'],
     technique='explicit-state exploration of version transitions, and exhaustive enumeration of tag placements, on the real code',
     note='How far counters of prereleases restart is not specified; answers of pypi and github are given.')

prop('C29', 'Stat output, sizes, safe names and the machine id are exact',
     'What is read from the stat program for a path is what the file system says, for every name, kind of file and time; the readable form of a size is the size within half a unit; a file system safe name has the same length and only the unsafe characters replaced. The machine id comes from the first file that has one, is created and kept otherwise, and stays the same when asked again.',
     ['inputs', 'histories'],
     'every name of up to 3 (thorough 4) special characters x 6 kinds x 8 times; sizes around all powers; every string up to 3 (4) characters; every history of the id files',
     'tests use names without special characters.',
     ['augpathlib/utils.py', 'augpathlib/core.py'],
     [('StatResult, FileSize, fs_safe_id, sysidpath', 'augpathlib/utils.py'), ('LocalPath._stat / size', 'augpathlib/core.py')],
     state=[('id files', 'missing, empty, there, not readable', 'file system')],
     observe=['fields of the result', 'strings', 'files'],
     technique='exhaustive enumeration of names, values and file states on the real code against the file system',
     note='GNU stat; the id files are in a scratch directory.')

prop('C30', 'A remote path over ssh says what the file system of the remote says',
     'For every path on the remote, whatever characters it contains and however long it is, stat, exists, is_file, is_dir, access, data, checksum, metadata and the listing of a directory are what the file system of the remote says at that moment, or the question is refused with an error (CommandTooLongError when the command does not fit the terminal); no question runs anything else, changes the remote or disturbs the session. Remote and local path, parents and ids correspond to each other relative to the anchor, paths outside of it are refused with ValueError, and cache_init (with parents) and fetch bring exactly that file with its metadata.',
     ['inputs', 'histories'],
     'every name of one (thorough: up to two) special characters and 44 names that mean something to a shell, in 6 kinds; every length of a path from 60 to 300; every mode of files and directories; every kind of user of the session x 125 (512) modes; every set of up to 2 (3) of 19 entries of a directory; every sequence of 3 (4) of 8 changes of a file',
     'needs an ssh server in the tests; they ask about one file with a plain name.',
     ['augpathlib/remotes.py', 'augpathlib/utils.py', 'augpathlib/caches.py'],
     [('SshRemote', 'augpathlib/remotes.py'), ('StatResult', 'augpathlib/utils.py'), ('SshCache, CachePath.__truediv__', 'augpathlib/caches.py')],
     state=[('remote files', 'kind, mode, content', 'file system'), ('session', 'prompt and shell', 'SshRemote.session')],
     observe=['results and exceptions', 'directory contents', 'a following command'],
     technique='exhaustive enumeration of names, lengths, modes, directories and histories against a real shell on a real terminal, compared with the file system',
     note='The ssh program is replaced by a stand-in that runs bash locally; names without line breaks in listings.')

prop('C31', 'Anchoring connects a remote to exactly one project or changes nothing',
     'However a remote is anchored (dropAnchor, smartAnchor, anchorTo, cache_init with anchor, anchorClassHere), afterwards remote and caches are anchored at the same directory, which has the id of the root of the remote, and the project works: objects can be cached and fetched there. Anchoring is refused with an error, leaving anchors and files as they were, if the remote is already anchored, the directory belongs to another remote, has other content without being a project, is not a directory or cannot be written; smartAnchor where it is already anchored changes nothing, and after weighAnchor it can be anchored again.',
     ['histories', 'faults'],
     'all pairs of 9 states of two places, every sequence of up to 2 (thorough: 3) of 19 operations',
     'tests anchor once, in an empty directory.',
     ['augpathlib/remotes.py', 'augpathlib/caches.py', 'augpathlib/core.py'],
     [('RemotePath.dropAnchor / smartAnchor / anchorTo / anchorToCache / weighAnchor', 'augpathlib/remotes.py'), ('CachePath.anchorClassHere / weighAnchor / local_data_dir_init', 'augpathlib/caches.py'), ('LocalPath.cache_init', 'augpathlib/core.py')],
     state=[('anchors', 'of the remote class and of the cache class', 'RemotePath._cache_anchor, CachePath._anchor'), ('projects', 'local directories', 'file system')],
     observe=['result or exception', 'anchor of a cache', 'file system', 'caching and fetching a file'],
     technique='exhaustive enumeration of operation sequences from all initial states on the real code in lockstep with a state machine',
     note='In-memory remote whose api answers.')

prop('C32', 'Clones are named like git names them, uris lead to the file on github',
     'clone_path of the address of a repository, in every form git accepts, is the directory that git clone makes for it, and clone_from makes the repository there or is refused if there is one. For every path in a repository whose origin is on github, written in any form git accepts, or in a local clone of one, remote_uri_human, remote_uri_machine and remote_uri_api consist of exactly the group, the repository, the given ref (by default what is checked out) and the path relative to the repository, with special characters escaped; for any other origin they are refused with NotImplementedError.',
     ['inputs'],
     '13 places x 19 names of clones; 10 forms of addresses x 6 (quick: 2) repositories x 4 endings x 9 refs x branch or detached x 19 paths in 3 spellings',
     'tests ask for the uri of one file of this repository.',
     ['augpathlib/repo.py'],
     [('RepoHelper.clone_path', 'augpathlib/repo.py'), ('RepoHelper._remote_helper / _remote_uri / remote_uri_*', 'augpathlib/repo.py')],
     state=[('origin', 'address of the remote', 'git config'), ('head', 'branch or detached', 'git')],
     observe=['paths and uris returned', 'directories made by git clone'],
     technique='exhaustive enumeration of addresses, refs and paths on the real code, compared with git clone and with the parts that were put in',
     note='Other hosts than github are not supported by the library.')

prop('C33', 'An interrupted bootstrap or update is completed by doing it again',
     'If a bootstrap, or following a change of the remote by refreshing and bootstrapping, is interrupted because any file system operation fails or the process dies at any point, no local data is lost, and doing the same again in a new process and fetching gives exactly the mirror of the remote, after which doing it once more changes nothing. Files, directories and links that are in the way of a bootstrap or in its directories without belonging to the remote are never removed or changed, and bootstrapping over them either is refused or mirrors everything else and is repeatable.',
     ['inputs', 'faults', 'crash_points'],
     'every tree of up to 3 objects (thorough 4) x first bootstrap or every single change (thorough: 2 names, pairs of faults) x every file system event failing or dying; every place of every tree x 7 things in the way, before or after a first bootstrap',
     'tests never interrupt a bootstrap; the order of operations that matters is different for every tree and change.',
     ['augpathlib/caches.py'],
     [('_CachePath._bootstrap / _bootstrap_recursive / refresh / move / crumple', 'augpathlib/caches.py'), ('PrimaryCache / SymlinkCache meta setters', 'augpathlib/caches.py')],
     state=[('local tree', 'placeholders, fetched files, directories and their metadata', '_CachePath'), ('trash', 'replaced files', '_CachePath.crumple')],
     observe=['local tree with metadata', 'all file contents', 'exceptions'],
     technique='exhaustive fault and crash point enumeration over all small trees and changes on the real code, compared with the remote tree',
     level='fault_enumeration',
     note='In-memory remote; a crash during a fetch may leave an empty file without metadata.')

prop('C34', 'Making a directory on the remote',
     'Asking for a directory on the remote makes exactly the directories that are missing, on both sides and with their identifiers cached, or is refused with an error and then nothing has changed on either side. If any file system operation or call of the remote fails on the way, an update followed by the same request gives the directories without doubling any and without losing local data. This holds for every place the path can name, however it is spelled, and for every sequence of such requests.',
     ['inputs', 'histories', 'faults'],
     '28 paths x parents x 2 spellings, sequences of 2 requests (thorough 3), every single file system event and every call of the remote failing',
     'there is no test of it; which side is ahead of the other and where it fails matter.',
     ['augpathlib/core.py', 'augpathlib/remotes.py', 'augpathlib/caches.py'],
     [('LocalPath.mkdir_remote', 'augpathlib/core.py'), ('RemotePath._mkdir_child', 'augpathlib/remotes.py'), ('_CachePath._bootstrap_prepare_filesystem', 'augpathlib/caches.py')],
     state=[('remote tree', 'objects and names', 'RemotePath'), ('local tree', 'directories and their cached identifiers', 'LocalPath')],
     observe=['both trees', 'metadata', 'exceptions'],
     technique='explicit enumeration of request sequences and of single faults on the real code, compared with a model of both sides',
     level='fault_enumeration',
     note='In-memory remote that refuses a second object of the same name.')

prop('C35', 'What a path is taken to be and what opens it',
     'The mime type and the encoding of a path depend on its own name only (and on it being a directory), are the same however the path is spelled and whatever it links to, and asking never fails. Opening a path runs the given command, or the opener of the platform, exactly once with exactly one argument that is the absolute path of that file, whatever characters its name contains.',
     ['inputs'],
     'every stem of up to 2 of 19 characters (thorough 3) x 10 endings x 8 kinds of path x 6 spellings; every name of 1 and 2 characters x every way of opening it',
     'tests ask for one name; which characters are special to uris, options and shells depends on the position in the name.',
     ['augpathlib/core.py'],
     [('AugmentedPath.mimetype / encoding', 'augpathlib/core.py'), ('XopenPath.xopen', 'augpathlib/core.py')],
     state=[('file system', 'kind of object the path names', 'AugmentedPath'), ('opener', 'arguments received', 'XopenPath')],
     observe=['mimetype', 'encoding', 'arguments of the program that was run'],
     technique='exhaustive enumeration of names, endings, kinds and spellings on the real code against a reference, with a stand-in for the opener',
     level='model_checking',
     note='Table of types of the python that runs the check; POSIX opener.')

prop('C36', 'A cached file is checked against its own metadata',
     'Validating a cached file reports data that do not match its metadata (by the etag, else by the checksum with the cypher the metadata name, else by the size), marks a checksum mismatch exactly once in the errors and keeps everything else, and changes and reports nothing when the data match; whether content differs is answered from the same facts. Copying a file together with its metadata gives the same content and the same metadata, or is refused before anything is written. Of two copies of the same object the one that changed last on the remote, then locally, is chosen, different objects are refused, and a file is fetched exactly if its size is known to be below the limit or there is none.',
     ['inputs', 'histories'],
     '16 kinds of metadata x 3 contents x known errors x sequences of up to 3 (thorough 4) validations, questions, writes and restarts; 10 sources x 13 targets x force x 2 directions; all orders of times of two copies; sizes around every limit',
     'tests validate no file that differs; the cypher, what is known and what happened before decide.',
     ['augpathlib/caches.py', 'augpathlib/core.py'],
     [('_CachePath.validate_file / dedupe / _fetch / _instance_cypher', 'augpathlib/caches.py'), ('LocalPath.content_different / copy_to / copy_from / etag / checksum', 'augpathlib/core.py')],
     state=[('file', 'content', 'LocalPath'), ('metadata', 'checksum, cypher, etag, size, errors', '_CachePath')],
     observe=['log records of errors', 'metadata', 'contents', 'exceptions', 'what the remote was asked for'],
     technique='explicit enumeration of operation sequences and input combinations on the real code against a reference model',
     level='model_checking',
     note='In-memory remote; extended attributes supported.')

prop('C37', 'The name of what is checked out',
     'The name given for what is checked out is that of the branch HEAD is on, otherwise that of a branch or tag that points at exactly this commit (there is always one if a tag does and nothing else), or none; it is never a notation that counts from some other reference. Looking up a reference by its name gives the reference of exactly that name or an error. Both hold for every history, placement of references, and state of HEAD.',
     ['inputs'],
     'lines of 3 commits and a merge, every set of up to 2 of 12 branches, tags, annotated tags and remote branches (thorough 3) at every commit, HEAD anywhere, packed or not',
     'tests have one branch; which name git reports depends on all references.',
     ['augpathlib/repo_patch.py'],
     [('_Repo.currentRefName / getRef', 'augpathlib/repo_patch.py')],
     state=[('references', 'branches, tags, remote branches and the commits they are at', 'git.Repo'), ('HEAD', 'branch or commit', 'git.Repo')],
     observe=['name given', 'reference found', 'exceptions'],
     technique='exhaustive enumeration of placements of references and HEAD on the real code with real repositories against a reference',
     level='model_checking',
     note='Names are computed by the git on this machine.')

prop('C38', 'The data directory of a project',
     'Setting up the data directory of a project gives it a trash and a place for objects, which is a directory there or a link to the place asked for; if a place exists already it stays the same, and asking for another one than the one that exists and cannot be replaced (it has objects, is a link elsewhere, or a file) is refused with an error without changing it. Doing it again changes nothing, stored objects are never lost or hidden, and if any file system operation fails on the way, doing it again completes it.',
     ['histories', 'faults'],
     '11 states x every sequence of up to 3 (thorough 4) of 8 operations; every single file system event failing, then done again',
     'no test asks for another place; what exists already and where it was interrupted decide.',
     ['augpathlib/caches.py'],
     [('_CachePath.local_data_dir_init / local_objects_dir / trash', 'augpathlib/caches.py')],
     state=[('data directory', 'objects directory or link, trash, stored objects', '_CachePath')],
     observe=['file system', 'where an object that is stored ends up', 'exceptions'],
     technique='explicit enumeration of operation sequences and of single faults on the real code, compared with a model',
     level='fault_enumeration',
     note='One process, one fault per execution.')

prop('C39', 'An object of the remote and its place in the project',
     'Every object of the remote names its place: parts, as_path, parent and parents are its path from the root of the remote, whether it was asked before, is local already or not and whatever the directories are called, and its local path and cache (also asked by name: cache / name) are exactly that place in the project. Making objects local one by one (cache / object from any directory above it, cache_init, children, rchildren) in any order makes exactly them, with their metadata, and the directories above them, leaves everything else as it was, and doing it again changes nothing. Objects are equal exactly if their ids are.',
     ['inputs', 'histories'],
     'every tree of the remote up to a size with names repeating those of the root and of directories above, asked in every state and after every single change; every sequence of ways to make objects local',
     'the remotes of the tests override as_path and never ask for the parts of an object that is cached more than one level deep.',
     ['augpathlib/remotes.py', 'augpathlib/caches.py'],
     [('RemotePath.parts / _parts_relative_to / as_path / parents / cache_init / __eq__', 'augpathlib/remotes.py'),
      ('CachePath.__truediv__ / _make_child, PrimaryCache.children / rchildren', 'augpathlib/caches.py')],
     observe=['paths and ids given', 'local tree and its metadata'],
     technique='explicit enumeration of remote trees, states and operation sequences on the real code, compared with the tree of the remote',
     note='In-memory remote; objects that moved on the remote and were not followed yet are left out, and so is dividing by an object that is not below the directory.')

prop('C40', 'Updating a cache from its remote object',
     'remote.update_cache() stores the metadata of the remote in its cache, says whether the content is different, moves the local path to the name and directory the remote has now, and replaces the content of a file that is really here only if it is different and fetching was not declined (fetch=False), never over local changes. A cache that is passed in is updated if it has the name and directory of the remote object, otherwise it is refused, like passing one to an object that has its own, and nothing changes. cache.refresh does the same and fetches data exactly as asked (update_data, force, size limit, or none), moves what the remote deleted to the trash, and doing any of it again changes nothing.',
     ['inputs', 'histories'],
     'every sequence of changes of an object on the remote up to a length, in every local state of it, with every way and every combination of arguments to update it',
     'the tests update caches from one remote that never moves or renames anything and never pass a cache or decline fetching.',
     ['augpathlib/remotes.py', 'augpathlib/caches.py'],
     [('RemotePath.update_cache / _parent_changed', 'augpathlib/remotes.py'),
      ('_CachePath.refresh / fetch / move, PrimaryCache._meta_updater / _update_meta', 'augpathlib/caches.py')],
     observe=['local tree, contents and metadata', 'answers', 'exceptions'],
     technique='explicit enumeration of local states, remote changes and calls on the real code, compared with a model',
     note='In-memory remote that does with the arguments of refresh what the remotes built on this library do.')

prop('C41', 'What is optional breaks only what needs it',
     'With any combination of what is optional missing (GitPython, the git executable, packaging, setuptools, the bindings of libmagic) the library can be imported, also with a star, and everything that does not need it answers as if it was there. What needs it raises an ImportError, the first time and every time after, whatever was used before in the same process and in whatever order; what was used first never changes what anything else answers.',
     ['inputs', 'histories'],
     'every subset of what is optional, each in an interpreter of its own, with every sequence of uses up to a length',
     'the tests run with everything installed and always in the same order.',
     ['augpathlib/__init__.py', 'augpathlib/core.py', 'augpathlib/repo.py', 'augpathlib/package.py'],
     [('stand-ins of RepoHelper and PackagePath, __all__', 'augpathlib/__init__.py'),
      ('RepoHelper.__new__ / _setup', 'augpathlib/repo.py'), ('load_run_setup', 'augpathlib/package.py'),
      ('AugmentedPath._magic_mimetype', 'augpathlib/core.py')],
     observe=['answers', 'exceptions'],
     technique='explicit enumeration of subsets and of sequences of uses on the real code, compared with the answers when everything is there',
     note='A missing module is one whose import raises ModuleNotFoundError.')
