"""Writes properties.jsonl (kept as a script so that the list is easy to edit)."""
import json
import os

P = []


def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=[observe], hook_needed=hook,
                     **({'state': [dict(name=n, meaning=m) for n, m in state]} if state else {}))))


WS = 'bead/workspace.py'
ZA = 'bead/ziparchive.py'
BX = 'bead/box.py'
BI = 'bead/box_index.py'
RF = 'bead/box_rawfs.py'
FS = 'bead/tech/fs.py'
PE = 'bead/tech/persistence.py'
SH = 'bead/tech/securehash.py'
TS = 'bead/tech/timestamp.py'
ME = 'bead/meta.py'
CI = 'bead_cli/input.py'
CW = 'bead_cli/workspace.py'
CC = 'bead_cli/common.py'
CB = 'bead_cli/box.py'
EN = 'bead_cli/environment.py'
MA = 'bead_cli/main.py'

p('C01', 'Only verified archives reach a workspace',
  'Commands that take content from an archive - editing a bead, adding, loading and updating an input - '
  'unpack code or data of an archive only after that very archive passed verification in the same command; '
  'when verification fails nothing is unpacked from it. '
  'Data already loaded for an input is removed only after the archive that replaces it passed verification.',
  ['inputs', 'histories'],
  'every command invocation, every archive content, every way an archive can be found (file, name, kind, content id, in any box)',
  'Tests corrupt one archive and try one command; the guarantee is about every route from a command to an extraction, including ones added later or taken only for some option combination.',
  [CI, CW, CC, WS, ZA],
  [('verify, then unload and load', 'bead_cli/input.py:_check_load_with_feedback'),
   ('verify, then unpack', 'bead_cli/workspace.py:CmdEdit.run'),
   ('verification', 'bead/ziparchive.py:ZipArchive.validate')],
  'content written below the workspace directory by edit / input add / input load / input update')

p('C02', 'Verification rejects every archive that differs from its manifest',
  'Verification accepts an archive only if its metadata has all required fields, its freeze time is not in the future, '
  'its metadata member and every member below the data and code folders is listed in the manifest, every listed member exists, '
  'and the recomputed hash over the whole content of every listed member equals the listed hash. '
  'Any archive failing one of these is reported as an invalid archive.',
  ['inputs'],
  'every archive: any set of members, any manifest, any metadata',
  'Tests try one damaged member of one kind; the claim is over all members and all positions in the manifest, which needs an argument over the loops.',
  [ZA, SH],
  [('verification', 'bead/ziparchive.py:ZipArchive.validate'),
   ('checks', 'bead/ziparchive.py:ZipArchive._checks'),
   ('member hash comparison', 'bead/ziparchive.py:ZipArchive._file_with_different_content_id'),
   ('unlisted members', 'bead/ziparchive.py:ZipArchive._extra_file')],
  'outcome (normal return / invalid archive error) of verifying an archive')

p('C03', 'Content hashes are length-framed SHA-512 over all bytes',
  'The hash of a content of N bytes is the hexadecimal SHA-512 digest of the ASCII decimal N, a colon, all N bytes in order, a semicolon and N again, '
  'and it is the same for content given as bytes and as a readable file, for content of any size. '
  'A file whose content length differs from its stated length is refused and gets no hash.',
  ['inputs'],
  'every byte content, including contents longer than a read block and empty contents',
  'Tests hash a few small contents; block boundaries, empty content and length mismatch for all sizes need an argument over the reading loop.',
  [SH],
  [('framing', 'bead/tech/securehash.py:_add_prefix,_add_suffix'),
   ('block loop and length check', 'bead/tech/securehash.py:file'),
   ('bytes', 'bead/tech/securehash.py:bytes')],
  'hash returned for a file / bytes')

p('C04', 'Saving captures every file of the workspace',
  'A saved archive contains every file of the output folder (at any depth) under the data folder at the same relative path, '
  'and every other file of the workspace at any depth under the code folder at the same relative path. '
  'The only entries left out are the top level entries named as the input, output, temp and metadata folders: '
  'hidden files, and nested entries having those same names, are saved; symbolic links are followed.',
  ['inputs'],
  'every workspace tree: any names, any nesting, any mix of files and folders',
  'Tests save one or two small trees; a filter dropping some class of names, depths or entry types passes them.',
  [WS, 'bead/layouts.py'],
  [('code files', 'bead/workspace.py:_ZipCreator.add_code'),
   ('data files', 'bead/workspace.py:_ZipCreator.add_data'),
   ('recursion', 'bead/workspace.py:_ZipCreator.add_directory,add_path')],
  'members of the archive made by saving')

p('C05', 'The manifest lists every stored member with the hash of its stored content',
  'When an archive is saved, every member written other than the manifest is listed in the manifest exactly under its member path, '
  'with the content hash of the same source bytes that were stored, and the manifest is written after all other members. '
  'The content id of a bead is the content hash of its manifest.',
  ['inputs'],
  'every workspace content',
  'Tests verify a saved sample; a member kind or branch that skips or mis-keys the hash shows only for particular trees.',
  [WS, ZA],
  [('hash recording', 'bead/workspace.py:_ZipCreator.add_file,add_string_content,add_hash'),
   ('manifest', 'bead/workspace.py:_ZipCreator.add_meta'),
   ('content id', 'bead/ziparchive.py:ZipArchive.calculate_content_id')],
  'manifest and members of a saved archive; content id reported for an archive')

p('C06', 'Saved metadata describes the workspace and is read back unchanged',
  'A saved archive records the kind of the workspace, its name, the freeze time given for the save and, for each input, its name, kind, content id and freeze time exactly as defined in the workspace, '
  'and its file is named name, underscore, that same freeze time, .zip in the directory of the box. '
  'Reading an archive reports the same values from the same fields, and editing it recreates a workspace with the same kind and the same inputs.',
  ['inputs'],
  'every workspace metadata: any number of inputs, any values',
  'Tests compare a few fields of one sample; swapped or dropped fields between writer and reader need a field-by-field argument over all inputs.',
  [WS, ZA, ME, BX],
  [('writer', 'bead/workspace.py:_ZipCreator.add_meta'),
   ('file name', 'bead/box.py:Box.store'),
   ('reader', 'bead/ziparchive.py:ZipArchive'),
   ('input records', 'bead/meta.py:parse_inputs')],
  'metadata member of a saved archive, attributes of the archive, metadata of an edited workspace')

p('C07', 'Saving is all or nothing',
  'If saving a workspace fails or is interrupted at any point before the archive is complete, no archive file remains at the target path and the box index is not told about it. '
  'Saving never overwrites a file that already exists.',
  ['fault_sequences', 'crash_points'],
  'every point at which an operation of the save can raise an error or be interrupted from the keyboard',
  'Tests inject one failure; the property is about every raising point between opening the archive and its completion.',
  [WS, BX],
  [('cleanup on failure', 'bead/workspace.py:Workspace.pack'),
   ('index after archive is complete', 'bead/box.py:Box.store')],
  'files in the box directory, index content after a failed save')

p('C08', 'Extraction never writes outside of its destination',
  'Unpacking code or data of an archive creates or writes files only inside the destination directory, whatever the names of the members in the archive are: '
  'member names with parent directory references or absolute paths are refused.',
  ['inputs'],
  'every member name in an archive, including hostile ones',
  'Tests use well behaved archives only.',
  [ZA],
  [('directory extraction', 'bead/ziparchive.py:ZipArchive.extract_dir'),
   ('name check', 'bead/ziparchive.py:is_inside')],
  'paths of files and directories created while unpacking')

p('C09', 'Input definitions change exactly as commanded',
  'After loading an archive as an input the workspace records under that input name exactly the kind, content id and freeze time of the loaded archive; after deleting an input its definition is gone; all other definitions and all other metadata stay as they were. '
  'Loading already defined inputs only ever uses an archive whose content id is the recorded one.',
  ['inputs', 'histories'],
  'every metadata content, every set of existing inputs',
  'Tests check one input before and after; that every other record survives unchanged for all metadata needs a data-flow argument.',
  [WS, CI],
  [('record', 'bead/workspace.py:Workspace.add_input'),
   ('delete', 'bead/workspace.py:Workspace.delete_input'),
   ('load by content id', 'bead_cli/input.py:_load')],
  'workspace metadata file before and after input commands')

p('C10', 'Loaded input data is read-only',
  'After an input is loaded every file and directory at any depth below its folder lost its owner write permission, and other permissions are kept. '
  'The folder holding all inputs of a new workspace is read-only, and whenever loading or unloading an input ends - normally, by error or interruption - it is read-only again.',
  ['inputs', 'fault_sequences'],
  'every tree of input data; every failure point',
  'Tests check one file of a flat sample.',
  [WS, FS],
  [('protect', 'bead/workspace.py:Workspace.load'),
   ('unprotect / protect input folder', 'bead/workspace.py:Workspace.load,unload'),
   ('tree enumeration', 'bead/tech/fs.py:all_subpaths')],
  'permission bits of input data after load, of the input folder after load/unload')

p('C11', 'A failed load leaves no partial input data',
  'If loading an input fails or is interrupted at any point while its data is being unpacked or protected, its folder does not remain with partial data that would count as loaded: it is removed before the failure is reported.',
  ['fault_sequences', 'crash_points'],
  'every point at which unpacking and protecting can raise an error or be interrupted',
  'Tests do not inject failures at every point of unpacking.',
  [WS],
  [('cleanup', 'bead/workspace.py:Workspace.load')],
  'folder of the input after a failed load')

p('C12', 'Destructive commands act only on the intended, existing target',
  'Creating and editing refuse to touch a directory that already exists; discarding refuses a directory that is not a valid workspace unless forced, and removes exactly that workspace directory. '
  'Unloading and deleting an input remove files only from the folder of that input, and only if the input is defined in the workspace.',
  ['inputs', 'programs'],
  'every argument combination and workspace state',
  'Tests cover one refusal per command; a new path around a guard needs a check of all paths.',
  [CW, CI, WS],
  [('existing directory refused', 'bead_cli/workspace.py:CmdNew.run,CmdEdit.run'),
   ('validity before removal', 'bead_cli/workspace.py:CmdDiscard.run'),
   ('defined input before removal', 'bead/workspace.py:Workspace.unload,delete_input')],
  'directories written or removed by new, edit, discard, input unload, input delete')

p('C13', 'Removing a tree never touches what its symbolic links point to',
  'Removing a directory tree (discarding a workspace, unloading an input) removes all of it even if parts are read-only, and neither removes nor changes the permissions of files outside of the tree that are only reachable through symbolic links in it.',
  ['inputs'],
  'every tree, including ones with links to files and directories outside',
  'Tests have a single link shape; all link positions and kinds need a case analysis.',
  [FS],
  [('removal', 'bead/tech/fs.py:rmtree'),
   ('enumeration without following links', 'bead/tech/fs.py:all_subpaths')],
  'permission changes and removals outside of the tree')

p('C14', 'Searching gives the same beads with and without an index',
  'Each search condition - name, kind, content id, and the five time comparisons (at, newer than, older than, at or newer, at or older) - compares the same property of the bead with the same relation against the given value in an indexed and in a not indexed box, '
  'and several conditions are always combined so that all must hold. '
  'Attributes of a bead found through the index are those of the archive that was indexed.',
  ['inputs', 'configurations'],
  'every combination of conditions, every box content, with or without index',
  'Tests sample conditions over few beads with distinct values; relation or column swaps that differ only on ties or rare combinations survive.',
  [RF, BI, 'bead/box_query.py', BX],
  [('checks on files', 'bead/box_rawfs.py:compile_conditions'),
   ('checks in SQL', 'bead/box_index.py:build_where_clause,query_beads'),
   ('stored columns', 'bead/box_index.py:insert_bead_record')],
  'result of searches in a box with and without index')

p('C15', 'Search results: extremes, ordering and uniqueness are by freeze time and content',
  'Over the matching beads of all searched boxes: oldest and newest give the earliest and latest freeze time, the n-th newer / older give the n-th from the oldest / newest in freeze time order, first gives a matching bead, all gives every matching bead of every box, '
  'and the unique option keeps exactly one bead per content id. '
  'When there is no (or not enough) matching bead a lookup error is raised instead of a wrong bead.',
  ['inputs'],
  'every box set and content, every n',
  'Tests use a handful of beads; ordering by the right key and total coverage of boxes hold for all contents only by argument.',
  [BX],
  [('terminal operations', 'bead/box.py:BaseSearch'),
   ('several boxes', 'bead/box.py:MultiBoxSearch')],
  'results of search operations')

p('C16', 'Resolving a bead yields that very bead',
  'Turning a found bead into an archive either returns an archive whose name, content id and box are those of the bead, or fails; '
  'it looks only into the box the bead came from, and the file is looked up by name and content id together.',
  ['inputs', 'histories'],
  'every box content, including boxes holding several versions of a bead or stale caches and indexes',
  'Tests resolve from consistent boxes; stale caches or equal names need a check of every path.',
  [BX, RF, BI],
  [('match check', 'bead/box.py:Box.resolve'),
   ('box selection', 'bead/box.py:resolve'),
   ('file lookup', 'bead/box_rawfs.py:RawFilesystemResolver.get_file_path'),
   ('file lookup in index', 'bead/box_index.py:find_file_path')],
  'archive returned for a bead')

p('C17', 'Foreign or damaged files in a box never break searching it',
  'Searching, looking up and indexing a box skip zip files that are not readable as beads - not a zip, missing or malformed metadata, missing manifest, unusable name or freeze time - and still deal with all other beads of the box; the unreadable file itself is never reported as a bead.',
  ['inputs'],
  'every content of every file in the box directory',
  'Tests have one kind of junk; every way reading an archive may fail has to be covered.',
  [RF, BI, ZA],
  [('skip when scanning', 'bead/box_rawfs.py:RawFilesystemResolver._archives_from'),
   ('reading metadata', 'bead/ziparchive.py:ZipArchive.__init__'),
   ('skip when indexing', 'bead/box_index.py:BoxIndex.index_archive_file')],
  'result of searching a box with junk files')

p('C18', 'The box index follows the files of the box',
  'Rebuilding an index starts from an empty index and considers every zip file of the box; synchronising considers every zip file not yet in the index and removes the records of exactly those files which no longer exist. '
  'A bead gets into the index only after its archive passed verification, the record and its inputs are replaced together in one transaction, and removing a file removes its record with its inputs and nothing else. Storing a bead in a box that has an index adds it to the index.',
  ['inputs', 'histories'],
  'every box content and every prior index content',
  'Tests use a few files; exactness over all prior states needs a data-flow argument.',
  [BI],
  [('rebuild', 'bead/box_index.py:BoxIndex.rebuild'),
   ('sync', 'bead/box_index.py:BoxIndex.sync'),
   ('insert', 'bead/box_index.py:BoxIndex.index_archive_file'),
   ('remove', 'bead/box_index.py:BoxIndex.unindex_archive_file')],
  'SQL statements executed on the index')

p('C19', 'Queries and status commands change nothing',
  'Showing status, listing boxes, showing the version, verifying an archive, and searching or resolving in a box without index never create, change or delete files, and in a box with an index they never change records of the index: queries use a read-only connection.',
  ['inputs', 'programs'],
  'every invocation of the listed operations',
  'Tests do not compare the file system before and after every query; the claim is about all reachable effects.',
  [CW, CB, BX, RF, BI, ZA],
  [('read-only connection', 'bead/box_index.py:create_query_connection'),
   ('status', 'bead_cli/workspace.py:CmdStatus.run')],
  'write effects (files, database) reachable from the read-only operations')

p('C20', 'Time order is the order of instants, exact to the microsecond',
  'Freeze times are compared as instants: timestamps written in different time zones compare by the moment they denote, never as text. '
  'The index stores the exact number of microseconds since the epoch, the same number for stored beads and for times searched for, without rounding.',
  ['inputs'],
  'every pair of timestamps in any time zone',
  'Tests use few timestamps in one zone; text comparison or float rounding fails only for specific values.',
  [BI, RF, BX, 'bead/bead.py', TS],
  [('instant of a bead', 'bead/bead.py:Bead.freeze_time'),
   ('index number', 'bead/box_index.py:timestamp_to_unix_utc_microseconds')],
  'order of search results')

p('C21', 'Timestamps, archive file names and their readers agree',
  'Every timestamp the tool produces is accepted by the strict timestamp reader and carries microseconds and zone offset. '
  'For every such timestamp the file name of a saved bead is matched by the pattern used to find beads by name, and the bead name read back from the file name is the name it was saved with. '
  'The reader takes each field of the timestamp from its own position and applies the zone offset with its sign. The timestamp denotes the moment it is made, also while clocks are turned.',
  ['inputs'],
  'every moment and time zone, every valid bead name',
  'Tests use example timestamps; agreement of formats, patterns and expressions is a language inclusion over all timestamps.',
  [TS, RF, ZA, BX],
  [('writer', 'bead/tech/timestamp.py:timestamp'),
   ('reader', 'bead/tech/timestamp.py:time_from_timestamp'),
   ('file pattern', 'bead/box_rawfs.py:RawFilesystemResolver._glob_bead_files'),
   ('name from file', 'bead/ziparchive.py:bead_name_from_file_path')],
  'timestamp strings, archive file names, parsed values')

p('C22', 'Names accepted at entry can always be read back',
  'Names that are empty, dot, dot-dot or contain a slash or a double underscore are refused when archives and input definitions are read. A bead name refused when reading archives or a nick refused when reading input definitions is never accepted when it is first given: not when creating or saving a bead, not when adding or loading an input. '
  'Creating also refuses names with a backslash or a colon.',
  ['inputs'],
  'every name',
  'Tests try sample names; the accepted set at entry has to be included in the readable set for all names.',
  [CW, CI, ME, BX],
  [('new', 'bead_cli/workspace.py:assert_may_be_valid_name'),
   ('input add', 'bead_cli/input.py:CmdAdd.run'),
   ('readers', 'bead/meta.py:BeadName,InputName'),
   ('save', 'bead/box.py:Box.store')],
  'names recorded by new / save / input add versus names accepted by readers')

p('C23', 'Known boxes stay uniquely named and survive restarts',
  'Adding a box is refused if a known box has the same name or the same location; otherwise it is appended and all earlier boxes stay. '
  'Forgetting removes exactly the boxes of that name; names and locations are written and read back under the same fields, and commands that change the boxes save them. Locations which are no existing directories are refused; listing shows every known box with its name and location.',
  ['inputs', 'histories'],
  'every history of adding and forgetting boxes',
  'Tests run short histories; uniqueness and survival for all histories is an invariant.',
  [EN, CB],
  [('add', 'bead_cli/environment.py:Environment.add_box'),
   ('forget', 'bead_cli/environment.py:Environment.forget_box'),
   ('save/load', 'bead_cli/environment.py:Environment.save,load')],
  'list of boxes after any history of commands')

p('C24', 'Metadata rewrites are atomic',
  'Rewriting workspace metadata or the list of boxes never exposes or leaves behind a truncated or partial file: at every moment, also after a failure at any point, the file holds either the complete old or the complete new content. A file reached through a symbolic link is rewritten where it is, and a rewrite that fails or is interrupted leaves no temporary file beside it.',
  ['crash_points', 'fault_sequences'],
  'every failure point during the rewrite',
  'Tests do not fail in the middle of writing.',
  [PE, WS, EN],
  [('write aside and replace', 'bead/tech/persistence.py:file_dump'),
   ('workspace metadata', 'bead/workspace.py:Workspace.meta'),
   ('boxes', 'bead_cli/environment.py:Environment.save')],
  'content of the metadata file at every point of a rewrite')

p('C25', 'Saved bead graphs load back equal',
  'Bead descriptions written for the web commands (with their inputs and freshness) are read back with every attribute equal to the written one: every class and enum that can occur is reconstructed by the reader, from the same fields the writer emits. The description made of a bead has the attributes of that bead.',
  ['inputs'],
  'every set of beads, inputs and freshness values',
  'Tests round-trip examples; agreement of the two codecs for every class and field is structural.',
  ['bead_cli/web/io.py', 'bead_cli/web/dummy.py'],
  [('writer', 'bead_cli/web/io.py:encoder'),
   ('reader', 'bead_cli/web/io.py:reconstruct')],
  'beads read from a file written from beads')

p('C26', 'Freshness colouring follows cluster heads and their inputs',
  'In a graph without loops the latest bead of every name is marked up to date or, if any bead it uses as input is not marked up to date itself (being superseded, out of date or unknown), out of date; '
  'all earlier beads of the name are marked superseded, and unknown (phantom) beads stay phantoms, even when one is the latest of its name. Neither the order of the beads nor earlier markings matter.',
  ['inputs'],
  'every bead graph without loops',
  'Tests colour small graphs; the rule has to hold for every version order and every graph.',
  ['bead_cli/web/sketch.py', 'bead_cli/web/cluster.py', 'bead_cli/web/dummy.py'],
  [('colouring', 'bead_cli/web/sketch.py:color_beads'),
   ('cluster heads', 'bead_cli/web/cluster.py:Cluster')],
  'freshness of beads after colouring')

p('C27', 'Names, kinds and paths are data, never code',
  'Bead names, input names, kinds, content ids and file paths never become part of an SQL statement, a shell command, a file name pattern or a database URI uninterpreted: they are passed as SQL parameters and escaped in patterns and URIs. In generated graph markup names are escaped as their place (quoted text, HTML-like label) requires, and folders shown as defaults in the help of commands are no part of its template.',
  ['inputs'],
  'every string value',
  'Tests use harmless names; injection needs special characters at any of the sinks.',
  [BI, RF, 'bead_cli/web/graphviz.py', 'bead_cli/web/commands.py', MA],
  [('SQL parameters', 'bead/box_index.py'),
   ('pattern', 'bead/box_rawfs.py:RawFilesystemResolver._glob_bead_files'),
   ('markup', 'bead_cli/web/graphviz.py')],
  'strings reaching execute, glob, connect, subprocess and markup')

p('C28', 'Updating an input selects the requested version',
  'Updating an input without a named bead searches all boxes for beads of the same kind as the input: by default the newest one not after the given time, with the next option the oldest one strictly newer and with the previous option the newest one strictly older than the freeze time recorded for the input. '
  'Adding and editing by name take the newest bead with exactly the given name not after the given time.',
  ['inputs'],
  'every option combination, every box content',
  'Tests run few version sets; that each option maps to exactly its selection on all paths is an argument over the paths.',
  [CI, CW, CC],
  [('update selection', 'bead_cli/input.py:CmdUpdate'),
   ('by name', 'bead_cli/common.py:resolve_bead')],
  'bead loaded by input update / input add / edit')

p('C30', 'Failures are reported and give a failing exit status',
  'When creating, editing, saving or discarding a workspace or an input command refuses its arguments or the state of the workspace (unknown bead, box or input, invalid workspace or name, existing directory), the message goes to the error output and the process exits with a non-zero status. '
  'When any command ends by an exception or a keyboard interrupt the process exits with a non-zero status too, and successful commands exit with zero.',
  ['fault_sequences', 'inputs'],
  'every exception class escaping from any command',
  'Tests provoke one or two failures.',
  [MA, CC, 'bead_cli/cmdparse.py'],
  [('top level handler', 'bead_cli/main.py:main'),
   ('refusals', 'bead_cli/common.py:die')],
  'exit status and error output of the process')

p('C31', 'Caching open archives is transparent',
  'Asking for an archive always gives an open reader of exactly the asked file, whatever sequence of files was asked for before, including files which could not be opened; after a request the cache holds no more open archives than its limit, and a request closes none but the least recently asked ones. Closing all leaves no archive open and later requests still work. Nobody but the cache closes its readers.',
  ['histories'],
  'every sequence of archives opened and closed',
  'Tests use short sequences below the cache limit.',
  ['bead/zipopener.py'],
  [('open', 'bead/zipopener.py:OpenZipLRUCache.open'),
   ('evict', 'bead/zipopener.py:OpenZipLRUCache.close')],
  'object returned for a file name after any sequence',
  state=[('open archives', 'map from file name to open reader'),
         ('access times', 'map from file name to logical time of last access')])

p('C32', 'Unpacking restores every file at its place',
  'Unpacking the code (data) of an archive writes every member below the code (data) folder and no other member, each with its own complete content, at the path given by its member name relative to that folder under the destination; missing parent directories are created, and the destination folder exists afterwards even if there was nothing to unpack. '
  'Editing unpacks code only into the workspace root and, on request, data only into its output folder; loading an input unpacks data only into the folder of that input.',
  ['inputs'],
  'every archive, any member names and order',
  'Tests unpack one small archive; prefix handling or path mixing errors show for particular names.',
  [ZA, WS, 'bead/bead.py', CW],
  [('unpack', 'bead/ziparchive.py:ZipArchive.extract_dir,extract_file'),
   ('edit', 'bead/bead.py:Archive.unpack_to')],
  'files created by unpacking')

# --- not decided by this family (see MANIFEST.json not_applicable) ---
p('C40', 'Save, edit, load round trip preserves bytes',
  'For every workspace, saving it, loading the bead as input or editing it elsewhere yields byte-for-byte the same files and the same permissions-independent tree.',
  ['inputs'], 'every tree of files with every content',
  'Tests compare a few small files.',
  [WS, ZA], [('save and unpack', 'bead/workspace.py, bead/ziparchive.py')],
  'bytes of files after a round trip')

p('C41', 'Concurrent use of a box is safe',
  'Several processes saving to, indexing and searching the same box at the same time neither lose beads nor corrupt the index, and a searcher sees only complete beads.',
  ['schedules'], 'every interleaving of processes',
  'Tests are single process.',
  [BX, BI], [('store', 'bead/box.py:Box.store'), ('transactions', 'bead/box_index.py')],
  'box content and index after concurrent operations')

p('C42', 'Kinds of new beads are unique',
  'Two newly created beads, anywhere, never get the same kind: the kind of a bead is made when the bead is created, has the whole of a universally unique identifier (or as much randomness) in it, and is recorded unchanged in the metadata of the workspace.',
  ['histories'], 'every pair of creations on any machines',
  'Tests can not compare all pairs of creations.',
  ['bead/tech/identifier.py', CW], [('kind', 'bead/tech/identifier.py:uuid')],
  'kinds of created workspaces')

p('C43', 'Graph filters keep exactly the reachable part',
  'Restricting a bead graph to sources (sinks) keeps exactly the beads of the named clusters and of those using them (used by them) directly or indirectly, all connections among these and no others, unchanged apart from inputs that are not connected any more; a named cluster without any connection may be left out. '
  'Giving both restricts to the sources first. Reducing a graph to heads keeps exactly the latest known bead of every name, the beads these use, and the connections leading to heads.',
  ['inputs'], 'every finite graph',
  'Tests use small graphs.',
  ['bead_cli/web/sketch.py', 'bead_cli/web/graph.py'],
  [('closure', 'bead_cli/web/graph.py:closure'), ('filters', 'bead_cli/web/sketch.py:ClusterFilter'), ('heads', 'bead_cli/web/sketch.py:heads_of')],
  'beads and edges kept by the filters')

p('C44', 'Files changed while being saved do not yield an inconsistent archive',
  'If a file of the workspace changes while the workspace is being saved, the saved archive is still valid or the save fails: the hash recorded for a file is always that of the content which was stored.',
  ['schedules'], 'every interleaving of a writer with the save',
  'Tests do not modify files during a save.',
  [WS], [('store, then hash', 'bead/workspace.py:_ZipCreator.add_file')],
  'validity of the saved archive')

p('C45', 'Queries scale with the index',
  'Searching an indexed box takes time proportional to the number of results, not to the number of archives, and opening archives stays within bounded memory.',
  ['inputs'], 'every box size',
  'Tests do not measure.',
  [BI, 'bead/zipopener.py'], [('index', 'bead/box_index.py')],
  'time and memory used')

p('C46', 'Bead graphs show every bead and every connection once',
  'The graph of a collection of beads has every bead exactly once, even when it is found in more than one box, with the data of the bead; a phantom bead for every input which names a bead that is not known; and for every input one connection, labelled by the input, from the bead having its name and content. '
  'The drawing of a graph has one node for every name, in it one row for every version, latest first, coloured by freshness (different colours for different freshness), and one connection for every connection of the graph, between the rows of its two beads.',
  ['inputs'], 'every collection of beads',
  'Tests use a few graphs without duplicates, and do not read the drawing.',
  ['bead_cli/web/sketch.py', 'bead_cli/web/graph.py', 'bead_cli/web/graphviz.py', 'bead_cli/web/cluster.py', 'bead_cli/web/dummy.py'],
  [('graph', 'bead_cli/web/sketch.py:Sketch.from_beads'), ('drawing', 'bead_cli/web/graphviz.py:Context.dot_edge'), ('cluster', 'bead_cli/web/graphviz.py:dot_cluster_as_fragments')],
  'beads, connections and drawing of a graph')

p('C47', 'Status tells the truth about inputs',
  'The status of a valid workspace shows its name and every input, with its kind and content id when asked for details. Of an input it says whether its data is loaded, the name of the bead having its content id (or that it is missing when no known box has it), '
  'and exactly those boxes which have beads of its kind that are not newer than the input, each with the latest of these, telling the very bead apart from others of its kind; where no box has any it says so, and what it says of inputs not loaded it says if and only if there are some.',
  ['inputs'], 'every set of inputs, boxes and beads',
  'Tests look for a few words in the output.',
  [CW], [('status', 'bead_cli/workspace.py:print_inputs'), ('command', 'bead_cli/workspace.py:CmdStatus')],
  'text printed by the status command')

p('C48', 'Saving stores in exactly the box asked for',
  'Saving with the name of a known box stores the workspace of the command (the given one, or the enclosing one) once, with the present moment as freeze time, in the box having exactly that name and in no other, even when that box refuses. '
  'Without a name it is stored in the only known box; when no box is known one is defined, remembered in the saved list of boxes, and used. '
  'When several boxes are known and none is named, when the name is not known, or when the workspace is not valid, nothing is stored.',
  ['inputs'], 'every list of known boxes, name given and workspace',
  'Tests use one or two boxes with names that are not similar.',
  [CW, EN], [('choice of box', 'bead_cli/workspace.py:CmdSave'), ('lookup', 'bead_cli/environment.py:Environment.get_box')],
  'boxes a bead is stored in by save')

p('C49', 'Commands find the enclosing workspace',
  'Commands working on an existing workspace use, when none is given, the nearest valid workspace among the current directory and those above it (the current directory when none of them is valid); a given one is used as it is given. '
  'Every operation of such a command is on that workspace.',
  ['inputs'], 'every current directory and every set of enclosing valid workspaces',
  'Tests run at the root of a workspace or one level below.',
  [WS, CC, CI], [('search', 'bead/workspace.py:Workspace.for_current_working_directory'), ('default', 'bead_cli/common.py:OPTIONAL_WORKSPACE')],
  'directory of the workspace a command works on')

p('C50', 'Index commands work on exactly the chosen boxes',
  'Indexing (reindexing) updates (rebuilds) the index of the named box, of the given directory, of all known boxes, or of the only known box when nothing is chosen, each once and of no other. '
  'An index that fails is reported and does not keep the others from being worked on; the number of finished indexes reported is right. '
  'When the name is not known, the directory does not exist, the choice is contradicting, or nothing is chosen with several boxes known, no index is touched.',
  ['inputs', 'fault_sequences'], 'every list of known boxes, choice and set of failing indexes',
  'Tests use a single box, or mock the functions.',
  [CB, EN], [('index', 'bead_cli/box.py:CmdIndex'), ('reindex', 'bead_cli/box.py:CmdReindex')],
  'indexes changed by the box index commands')

p('C51', 'Times given by the user are understood',
  'A time given with -t/--time is a year, a month (2013-01 or 201301), a day (2013-01-30 or 20130130), or a date and time with zone (basic or extended layout, with or without microseconds): it stands for the moment of the given fields, fields not given being the first possible, the zone being UTC when not given. '
  'A text of signed amounts of weeks, days, hours, minutes and seconds (-3w2d, 5H) stands for now plus their sum, also when clocks are turned in between. '
  'The moment has a zone in every case. Any other text is refused.',
  ['inputs'], 'every text',
  'Tests try two layouts and one difference.',
  ['bead/tech/timestamp.py', 'bead_cli/common.py'],
  [('moment', 'bead/tech/timestamp.py:time_from_user'), ('option', 'bead_cli/common.py:bead_spec_kwargs')],
  'moment used for choosing a version of a bead')

p('C52', 'Web commands form a pipe-line',
  'The sub-commands of the web command work in the order given, each on the graph left by the one before: loading replaces the graph by that of the file, restricting, reducing to heads and colouring change it, and saving, drawing and viewing pass it on unchanged. '
  'The pipe-line starts with the graph of all beads of all known boxes unless its first command is to load a file. '
  'When it starts with a file the boxes are not read. Files are written, drawn in the requested format, and opened as named, with the graph of that point of the pipe-line. '
  'A command line which can not be understood as a whole is refused without writing, drawing or opening anything. When the drawing program fails the command fails.',
  ['inputs', 'histories'], 'every sequence of sub-commands',
  'Tests use one or two sub-commands.',
  ['bead_cli/web/commands.py'],
  [('parsing', 'bead_cli/web/commands.py:parse_commands'), ('pipe-line', 'bead_cli/web/commands.py:CmdWeb.run')],
  'files written and opened by the web command')

p('C53', 'Inputs are loaded and unloaded as chosen',
  'Loading puts in place the chosen input, or every input when none is chosen: exactly those that are not loaded yet and have an intact bead in a box; each that has no bead or only a damaged one is reported by name, is not loaded, and does not keep the others from being loaded. '
  'Unloading removes the data of exactly the chosen input, or of all inputs, where it is loaded; definitions stay. '
  'Updating with a damaged bead leaves the input, loaded or not, as it is and does not keep the others from being updated.',
  ['inputs', 'fault_sequences'], 'every list of inputs, each loaded, loadable, without bead or with a damaged one',
  'Tests use workspaces with one or two inputs in good state.',
  [CI, WS], [('load', 'bead_cli/input.py:CmdLoad'), ('unload', 'bead_cli/input.py:CmdUnload'), ('feedback', 'bead_cli/input.py:_check_load_with_feedback')],
  'inputs loaded and unloaded by the input commands')

p('C54', 'Boxes are read through their index when it can be opened',
  'The beads of a box without an index are those of its archives; of a box with an index those recorded in the index; and when there is an index that can not be opened the box gives no bead: searching it succeeds with nothing and does not hide the beads of other boxes, resolving a bead in it is a lookup error, and a bead saved into it is stored all the same.',
  ['configurations', 'fault_sequences'], 'every combination of boxes with no, a usable, or an unusable index',
  'Tests run with usable indexes, or none.',
  [BX, BI], [('choice', 'bead/box.py:Box._create_resolver'), ('unusable', 'bead/box.py:NullResolver'), ('check', 'bead/box_index.py:can_read_index')],
  'beads given by a box, outcome of resolving and storing')

p('C55', 'Workspaces are made where asked, and of the bead asked for',
  'Editing unpacks the latest bead of the given name which is not newer than the given time - or the bead in the given file, whenever there is a file of this name - to the folder given, or when none is given to a new one in the current directory with the name of the bead; its data is put in the output folder exactly when asked with --review. '
  'Nothing is unpacked when that folder already exists, no matter which others do, or when the bead is missing or damaged. New creates the workspace in exactly the given folder, and only when there is nothing yet.',
  ['inputs', 'configurations'], 'every reference, time, option and content of the boxes and of the current directory',
  'Tests edit by name into an empty directory.',
  [CW, 'bead_cli/common.py'], [('edit', 'bead_cli/workspace.py:CmdEdit'), ('new', 'bead_cli/workspace.py:CmdNew'), ('reference', 'bead_cli/common.py:resolve_bead')],
  'workspaces created by new and edit')

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + '\n')
print(len(P), 'properties')
