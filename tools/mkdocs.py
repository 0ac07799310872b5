# coding=utf-8
"""Writes properties.jsonl and MANIFEST.json. Usage: python3 tools/mkdocs.py"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

# id, title, statement, over, quantifier, why tests cannot, files, state, mechanism, observe
P = []


def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), note=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mechanism=mechanism, state=state, observe=observe, note=note, na=na))


prop('C01', 'A registry is a one-to-one mapping after any history, also of failed calls',
     'After any sequence of register, remove and reset calls, the mapping from nicknames to ids and the mapping from '
     'ids to nicknames of a registry are exact inverses of each other, and every lookup (nickname to id, id to '
     'nickname, nickname-or-id, sorted listing) agrees with the accepted calls. A call that would give a nickname or '
     'an id two partners, that names nothing (None) or that removes an absent or mismatched pair raises, and a call '
     'that raises for any reason, also because the what() of the described object fails or because it is '
     'interrupted half way, leaves no half-made binding behind: it has either no effect at all or its full effect. '
     'Registries, and pickled or deep copied registries, do not affect each other.',
     ['histories', 'fault_sequences', 'inputs'],
     'All histories of calls on several registries, with any nicknames and describable objects, user code failures '
     'and interrupts at any point inside any call.',
     'The tests make a dozen calls in one fixed order, without failing user code and without interrupts.',
     ['whatami/registry.py', 'whatami/whatutils.py'],
     [{'name': 'WhatamiRegistry.register', 'where': 'whatami/registry.py'},
      {'name': 'WhatamiRegistry.remove', 'where': 'whatami/registry.py'},
      {'name': 'what2id', 'where': 'whatami/whatutils.py'}],
     [{'name': '_bindings', 'meaning': 'both directions of the mapping', 'where': 'whatami/registry.py'}],
     ['register', 'remove', 'reset', 'list', 'nick2id', 'id2nick', 'nick_or_id'])

prop('C02', 'Concurrent callers of a registry see it change one call at a time',
     'When several threads register, remove, reset and look up nicknames and ids on the same registry, every call '
     'returns or raises what it would if the calls had happened one at a time, in an order that respects which '
     'calls finished before others started. In particular no two threads can both succeed in giving the same '
     'nickname or the same id different partners, no accepted registration is lost, and no caller ever sees a '
     'binding in only one of its directions.',
     ['schedules', 'histories', 'fault_sequences'],
     'All interleavings, at the granularity of lines and of bytecodes, of up to four threads with up to six calls '
     'each, with failing what() methods and interrupted calls.',
     'The tests are single threaded.',
     ['whatami/registry.py'],
     [{'name': 'WhatamiRegistry.register', 'where': 'whatami/registry.py'},
      {'name': 'WhatamiRegistry.remove', 'where': 'whatami/registry.py'}],
     [{'name': '_bindings', 'meaning': 'both directions of the mapping', 'where': 'whatami/registry.py'}],
     ['register', 'remove', 'reset', 'list', 'nick2id', 'id2nick', 'nick_or_id'])

prop('C03', 'Adding records is all or nothing and never replaces a record',
     'A call to the add of a recorder, with one or many ids, either adds exactly the records it was asked for, at the '
     'end and in the given order, or raises and adds none, whatever fails in it: an id already present or repeated, '
     'an id extractor, a postprocessor, an iterable of ids or values, or an interrupt at any point. '
     'A recorder whose column of ids is not named by a string cannot be created. '
     'Records already in the recorder are never replaced, modified or reordered by later calls, also when a '
     'postprocessor itself adds records to the same recorder. What add returns, get, len, unique and the data frame '
     'agree with each other, and each record has its id, its own column values, the defaults of the missing columns, '
     'and what the chain of postprocessors did to it.',
     ['histories', 'fault_sequences', 'inputs'],
     'All histories of add calls with any mix of ids, columns (scalars, iterables, dictionaries), defaults and '
     'postprocessors that modify, replace, validate, fail or re-enter the recorder, and interrupts at any point.',
     'The tests and doctests add a dozen records in one order; the only failures are duplicated ids and one '
     'validation; nothing is interrupted or re-entered.',
     ['whatami/registry.py'],
     [{'name': 'Recorder.add', 'where': 'whatami/registry.py'},
      {'name': 'Recorder._params2dict', 'where': 'whatami/registry.py'}],
     [{'name': '_registry', 'meaning': 'the records by id', 'where': 'whatami/registry.py'}],
     ['Recorder.add', 'Recorder.get', 'Recorder.__len__', 'Recorder.unique', 'Recorder.to_df'])

prop('C04', 'Concurrent adds to a recorder lose no record and accept each id once',
     'When several threads add records to the same recorder and read it, of several calls adding the same id at most '
     'one succeeds, a call that succeeds has added all its records and they stay, a call that fails has added none, '
     'and get of an id, len, unique and the data frame return what they would at some instant during the call, with the records of '
     'each add appearing all at once.',
     ['schedules', 'histories', 'fault_sequences'],
     'All interleavings, at the granularity of lines and of bytecodes, of up to four threads adding and reading, with '
     'postprocessors that yield or fail, and interrupts.',
     'The tests are single threaded.',
     ['whatami/registry.py'],
     [{'name': 'Recorder.add', 'where': 'whatami/registry.py'},
      {'name': 'Recorder.unique', 'where': 'whatami/registry.py'}],
     [{'name': '_registry', 'meaning': 'the records by id', 'where': 'whatami/registry.py'}],
     ['Recorder.add', 'Recorder.get', 'Recorder.__len__', 'Recorder.unique'])

prop('C05', 'Settings of recorders, curried and partial adds do not leak',
     'Column defaults and postprocessors given to one recorder, to one curried add, to one partial add or to one call '
     'only ever affect the records added through it; deriving a new curried or partial add never changes the one it '
     'comes from, which can be used any number of times, before and after, also if calls through it fail. '
     'Changing the lists and dictionaries the caller passed in, or those handed out by the recorder, never changes '
     'the settings of a recorder, and a change of its defaults or postprocessors applies to all later records and to '
     'none of the earlier ones.',
     ['histories', 'fault_sequences', 'inputs'],
     'All histories interleaving derivation and use of curried and partial adds over several recorders with changes '
     'of their settings, failing calls and interrupts.',
     'The tests derive each variant once and use it right away.',
     ['whatami/registry.py'],
     [{'name': 'Recorder.padd', 'where': 'whatami/registry.py'},
      {'name': '_RecorderMeta', 'where': 'whatami/registry.py'},
      {'name': 'Recorder.add_column_defaults', 'where': 'whatami/registry.py'},
      {'name': 'Recorder.add_record_postprocessors', 'where': 'whatami/registry.py'}],
     [{'name': '_column_defaults', 'meaning': 'defaults of columns', 'where': 'whatami/registry.py'},
      {'name': '_record_postprocessors', 'meaning': 'chain of postprocessors', 'where': 'whatami/registry.py'}],
     ['Recorder.add', 'Recorder.padd', 'column_defaults', 'record_postprocessors'])

prop('C06', 'Parsing from several threads at once gives each caller its own result',
     'When several threads parse ids (valid, invalid and old style), turn them into dictionaries, sort and match '
     'them at the same time, each call returns exactly the configuration that its own id describes, or rejects its '
     'own id if it is invalid, no matter what the other threads are parsing or how their calls interleave, also if '
     'some of the calls fail or are interrupted.',
     ['schedules', 'inputs', 'fault_sequences'],
     'All interleavings, at the granularity of lines, of up to four threads parsing any ids.',
     'The tests are single threaded.',
     ['whatami/parsers.py', 'whatami/whatutils.py'],
     [{'name': 'parse_whatid', 'where': 'whatami/parsers.py'},
      {'name': 'id2dict', 'where': 'whatami/whatutils.py'},
      {'name': 'oldid2what', 'where': 'whatami/whatutils.py'}],
     [{'name': 'DEFAULT_WHATAMI_PARSER', 'meaning': 'the shared parser', 'where': 'whatami/parsers.py'}],
     ['parse_whatid', 'id2what', 'id2dict', 'sort_whatids', 'match_whatids', 'oldid2what', 'id2whatami4'])

prop('C07', 'Parsing an id depends on nothing but the id',
     'Parsing a generated id gives back the configuration it was generated from (names, output names, nesting, and '
     'values of plain types, with strings up to the escaping of their quotes), and that configuration gets the same '
     'id again, whatever was parsed before it: other '
     'ids, invalid ids that were rejected, things that are not strings, or parses interrupted at any point. '
     'The dictionary of an id is the same, with dictionaries in place of configurations at any depth. Each parse '
     'gives a fresh result, so changing a result never changes what parsing the same id gives later, and an id with '
     'missing or spurious text is always rejected. Classes that cannot be imported are parsed as a dictionary that '
     'tells which they are. A visitor or parser of the caller is used for that call only, and its errors reach the caller.',
     ['histories', 'inputs', 'fault_sequences'],
     'All histories of parses of any ids generated from configurations, mutated ids, and interrupts at any point.',
     'The tests parse each id once, mostly with a parser that has never failed.',
     ['whatami/parsers.py', 'whatami/whatutils.py'],
     [{'name': 'parse_whatid', 'where': 'whatami/parsers.py'},
      {'name': 'build_whatami_parser', 'where': 'whatami/parsers.py'},
      {'name': 'WhatamiTreeVisitor', 'where': 'whatami/parsers.py'}],
     [{'name': 'DEFAULT_WHATAMI_PARSER', 'meaning': 'the shared parser', 'where': 'whatami/parsers.py'}],
     ['parse_whatid', 'id2what', 'id2dict', 'What.to_dict'])

prop('C08', 'The id of a configuration is the same in every order, process and restart',
     'The same configuration gets the same id whatever the order in which its keys, set elements and attributes were '
     'inserted, in any process whatever its string hash randomisation, and after being copied or pickled and restored '
     'in another process (the elements of arrays of objects too); and it is exactly the documented string: sorted keys, nested ids, quoted strings. '
     'Plain configurations that differ in a name, a key, a value or the type of a value (strings without quotes or '
     'backslashes) get different ids.',
     ['inputs', 'histories', 'configurations', 'crash_points'],
     'All configurations of plain values, collections, whatables, functions, partials and arrays; all insertion '
     'orders; all hash seeds; restarts from pickles.',
     'The tests generate ids in one process, with one hash seed and in one insertion order.',
     ['whatami/what.py', 'whatami/plugins.py', 'whatami/minijoblib/hashing.py'],
     [{'name': 'What.id', 'where': 'whatami/what.py'},
      {'name': 'dict_plugin', 'where': 'whatami/plugins.py'},
      {'name': 'set_plugin', 'where': 'whatami/plugins.py'}],
     [], ['What.id', 'what2id', 'whatareyou', 'whatable'])

prop('C09', 'Describing an object neither changes it nor is affected by earlier descriptions',
     'Generating the id, the positional id, the flattened keys and values, a copy or the dictionary of an object or '
     'configuration changes neither it nor its parts. Whatever was described before, the id of an object depends only '
     'on its current state: it follows each later change of the object, goes back when the change is undone, and '
     'never shows the state of another object, also one at the same address.',
     ['histories', 'inputs', 'fault_sequences'],
     'All histories of describing, mutating, copying, discarding and recreating objects, also with failed or '
     'interrupted descriptions in between.',
     'The tests describe freshly made objects once.',
     ['whatami/what.py', 'whatami/plugins.py', 'whatami/misc.py', 'whatami/whatutils.py'],
     [{'name': 'whatareyou', 'where': 'whatami/what.py'},
      {'name': 'whatable', 'where': 'whatami/what.py'},
      {'name': 'config_dict_for_object', 'where': 'whatami/misc.py'},
      {'name': 'What.copy', 'where': 'whatami/what.py'}],
     [], ['What.id', 'whatareyou', 'What.copy', 'What.set', 'What.flatten', 'What.positional_id'])

prop('C10', 'A failed description never turns into a wrong id',
     'When something fails while an object is being described (a what() method or a property of it or of any object '
     'nested in its configuration, memory, recursion depth, or an interrupt at any point), the caller gets that error '
     'or the right id, never another id. The next description of the same object is right.',
     ['fault_sequences', 'inputs', 'histories'],
     'All configurations with failing user code at any place in them, and any kind of exception raised at any point '
     'inside the library.',
     'The tests have a handful of failing objects and inject nothing.',
     ['whatami/what.py', 'whatami/plugins.py', 'whatami/whatutils.py', 'whatami/misc.py'],
     [{'name': 'is_whatable', 'where': 'whatami/what.py'},
      {'name': 'whatareyou', 'where': 'whatami/what.py'},
      {'name': 'what2id', 'where': 'whatami/whatutils.py'},
      {'name': 'whatable', 'where': 'whatami/what.py'}],
     [], ['What.id', 'what2id', 'obj2what', 'whatable'])

prop('C11', 'The plugin chain is exactly what the accepted changes made it',
     'After any history of inserting, dropping and resetting plugins, also with refused or interrupted calls and from '
     'several threads at once, the chain is the default one with exactly the accepted changes, in their positions; '
     'inserting a plugin already there, dropping an absent one or inserting before an absent one raises ValueError and '
     'changes nothing. Each value of each id is rendered by the first plugin of the chain that accepts it, a plugin '
     'that fails fails the id, and ids generated while another thread changes the chain use, for each value, either '
     'the chain before the change or the one after it.',
     ['histories', 'schedules', 'fault_sequences'],
     'All histories and interleavings of chain changes and id generation, with failing plugins and interrupts.',
     'The tests make three changes in a row, in one thread.',
     ['whatami/plugins.py'],
     [{'name': 'WhatamiPluginManager.insert', 'where': 'whatami/plugins.py'},
      {'name': 'WhatamiPluginManager.drop', 'where': 'whatami/plugins.py'},
      {'name': 'WhatamiPluginManager.build_string', 'where': 'whatami/plugins.py'}],
     [{'name': 'PLUGINS', 'meaning': 'the chain', 'where': 'whatami/plugins.py'}],
     ['WhatamiPluginManager.plugins', 'WhatamiPluginManager.build_string', 'What.id'])

prop('C12', 'Import helpers return the first thing that imports and report the rest',
     'Whatever modules are missing, broken or fail half way, importing leniently gives the first variant that can be '
     'imported, without importing later ones; if none can, nothing fails until the result is used, and then '
     'ImportError tells about every variant tried and how to install it. Importing a member or whatamising a class by '
     'name raises ImportError or not as asked, importing all the submodules of a package returns exactly those that '
     'can be imported (or raises, if errors are not to be ignored) and honours the recursion option at any depth, and '
     'errors other than ImportError are never hidden.',
     ['fault_sequences', 'configurations', 'histories'],
     'All trees of modules and packages in which any module is absent, fails to import with any exception, fails only '
     'the first times, or lacks the member.',
     'The tests import modules of the standard library, which never fail, and one that does not exist.',
     ['whatami/misc.py', 'whatami/whatutils.py'],
     [{'name': 'maybe_import', 'where': 'whatami/misc.py'},
      {'name': 'maybe_import_member', 'where': 'whatami/misc.py'},
      {'name': 'import_submodules', 'where': 'whatami/misc.py'},
      {'name': 'whatamize_object', 'where': 'whatami/whatutils.py'}],
     [], ['maybe_import', 'maybe_import_member', 'import_submodules', 'whatamize_object'])

prop('C13', 'Ids and parsing do not depend on the optional libraries being importable',
     'When numpy, pandas or both are missing or fail to import, whatami can still be imported, and generates and '
     'parses exactly the same ids for everything that is not an object of those libraries; functions that need them '
     'fail with ImportError only when they are called.',
     ['configurations', 'fault_sequences', 'inputs'],
     'All subsets of the optional libraries failing with an import error, for all configurations without their '
     'objects.',
     'The tests run with everything installed.',
     ['whatami/plugins.py', 'whatami/misc.py', 'whatami/minijoblib/hashing.py', 'whatami/registry.py'],
     [{'name': 'maybe_import', 'where': 'whatami/misc.py'},
      {'name': 'has_numpy', 'where': 'whatami/plugins.py'},
      {'name': 'has_pandas', 'where': 'whatami/plugins.py'}],
     [], ['What.id', 'id2what', 'Recorder', 'has_numpy', 'has_pandas'])

prop('C14', 'Experiment information records what was asked, when and where it was asked',
     'The experiment information dictionary always has the same keys in the same order: title, ids of the data, model '
     'and evaluation setups, source of the experiment function, local date at the moment of the call, date from the '
     'given time source, host name and comments, with None for whatever was not given. It never mixes the information '
     'of different calls, also concurrent ones or with clocks that jump, and if the time source, the host name lookup, '
     'the source lookup or a what() method fails, that error reaches the caller.',
     ['fault_sequences', 'inputs', 'schedules'],
     'All clock values and jumps, hosts, time source results and failures, setups, interleavings of callers.',
     'The tests call it three times with the real clock and compare nothing of the date.',
     ['whatami/misc.py', 'whatami/whatutils.py'],
     [{'name': 'mlexp_info_helper', 'where': 'whatami/misc.py'}],
     [], ['mlexp_info_helper'])

prop('C15', 'The id of a random generator follows its state and consumes no randomness',
     'Generating the id of a random state, or of anything that contains one, never changes the numbers it will '
     'produce. Two random states (of the default kind) get the same id exactly when they would go on producing the same '
     'numbers, whatever mixture of draws, reseedings, copies, pickles and restarts led to each of them.',
     ['histories', 'inputs'],
     'All histories of seeding, drawing (also half consumed gaussian pairs), copying, pickling and restoring.',
     'The tests describe one freshly seeded generator.',
     ['whatami/plugins.py', 'whatami/minijoblib/hashing.py'],
     [{'name': 'rng_plugin', 'where': 'whatami/plugins.py'},
      {'name': 'numpy_plugin', 'where': 'whatami/plugins.py'}],
     [], ['What.id', 'what2id'])

prop('C16', 'Describing the calling function gives the parameters of that very call',
     'Asking, from inside a function, for the dictionary or the configuration of the ongoing call gives the name of '
     'that function and the values of the locals of that very activation at that moment, without the excluded ones, '
     'also when the function is recursive, is active in several threads at once, or is suspended meanwhile. '
     'The result is a snapshot: later changes of the locals or of the result do not affect each other.',
     ['schedules', 'histories', 'inputs'],
     'All interleavings of threads and recursive activations of functions, generators included, that describe '
     'themselves at any moment.',
     'The tests call one function once.',
     ['whatami/misc.py', 'whatami/whatutils.py'],
     [{'name': 'call_dict', 'where': 'whatami/misc.py'}, {'name': 'call2what', 'where': 'whatami/whatutils.py'}],
     [], ['call_dict', 'call2what'])

prop('C17', 'The id of a scikit-learn estimator follows its parameters and nothing else',
     'The id of an estimator depends only on its class and its current parameters, except those declared not to change '
     'its results (number of jobs, verbosity, copies...): fitting, predicting, cloning, copying, pickling and describing it, '
     'in any order and also if any of them fails or is interrupted, never change it, while setting a parameter does '
     'and setting it back undoes it. If asking for its parameters fails, the caller gets that error. Preparing scikit-learn any number of times, also after an interrupted attempt, '
     'or from several threads at once, gives the same ids.',
     ['histories', 'fault_sequences', 'configurations'],
     'All histories of parameter changes, fits, failures, clones and pickles over all kinds of estimators supported.',
     'The tests describe freshly constructed estimators.',
     ['whatami/wrappers/what_sklearn.py'],
     [{'name': 'whatamize_sklearn', 'where': 'whatami/wrappers/what_sklearn.py'}],
     [], ['whatamize_sklearn', 'what2id', 'estimator.what'])

prop('C18', 'Concurrent id generation gives each caller the id it would get alone',
     'When several threads generate ids at the same time, of the same object, of objects sharing parts or of '
     'unrelated objects (plain values, whatable objects and functions, arrays, data frames, random states), each call '
     'returns exactly the id it would return alone, and leaves the objects unchanged, also if others fail or are '
     'interrupted meanwhile.',
     ['schedules', 'inputs', 'fault_sequences'],
     'All interleavings, at the granularity of lines and bytecodes, of up to four threads describing shared or '
     'separate objects.',
     'The tests are single threaded.',
     ['whatami/what.py', 'whatami/plugins.py', 'whatami/misc.py', 'whatami/minijoblib/hashing.py'],
     [{'name': 'What.id', 'where': 'whatami/what.py'},
      {'name': 'WhatamiPluginManager.build_string', 'where': 'whatami/plugins.py'},
      {'name': 'hash', 'where': 'whatami/minijoblib/hashing.py'}],
     [], ['What.id', 'what2id', 'whatareyou', 'whatable'])

prop('C19', 'Collections of ids are handled id by id, and failures leave nothing half done',
     'Matching ids to a template gives, in order, exactly those with the same name and keys and with the same values '
     'but for the ignored keys; sorting ids or configurations by some keys is stable and gives the values too; '
     'flattening and looking up agree with each other, and looking up an absent key gives the default; extracting '
     'columns to a data frame gives for each row the value in its id, or none if absent. This holds whatever kind of '
     'iterable the ids and the ignored keys come in, whatever else is in the collection, in several threads at once, '
     'and after calls that failed or were interrupted. If an id is invalid or the iterable fails, the call fails and '
     'the data frame stays as it was; a data frame is never changed if a copy was asked for, and an interrupted '
     'extraction never leaves a column half done.',
     ['histories', 'schedules', 'fault_sequences', 'inputs'],
     'All histories of such calls over families of similar ids in up to three threads, with failing iterables, '
     'invalid ids and interrupts.',
     'The tests match and extract a handful of ids in lists, without failures.',
     ['whatami/whatutils.py', 'whatami/what.py'],
     [{'name': 'match_whatids', 'where': 'whatami/whatutils.py'},
      {'name': 'whatid2columns', 'where': 'whatami/whatutils.py'},
      {'name': 'sort_whatids', 'where': 'whatami/whatutils.py'},
      {'name': 'What.flatten', 'where': 'whatami/what.py'}],
     [], ['match_whatids', 'sort_whats', 'sort_whatids', 'whatid2columns', 'What.get', 'What.flatten'])

prop('C24', 'What is decorated behaves like the original, and nothing else changes',
     'Calling a whatable function passes its arguments as they are, once, and returns or raises exactly what the '
     'function does, in any thread, also if it fails, yields, calls itself or describes itself meanwhile; it keeps '
     'the name, documentation and attributes, its id never depends on the calls made, and unless it was decorated in '
     'place the original function does not change. Decorating a class, a subclass or an instance changes that one '
     'only, with the options given last, and an object with another what is refused and left as it was; a decoration '
     'that is interrupted has either happened or not. '
     'A metaclass made by decorate_some applies the same decorators, once each and in order, to every class created '
     'with it, whatever classes were created or failed before or are being created in other threads, and does not '
     'change what it was given.',
     ['histories', 'schedules', 'fault_sequences', 'programs'],
     'All histories of decorations, calls and class creations in up to three threads, with failures of the decorated '
     'functions and of decorators, and interrupts.',
     'The tests decorate each thing once, and call two decorated functions that do not fail.',
     ['whatami/what.py', 'whatami/misc.py', 'whatami/whatutils.py'],
     [{'name': 'whatable', 'where': 'whatami/what.py'}, {'name': 'decorate_some', 'where': 'whatami/misc.py'},
      {'name': 'whatamize_object', 'where': 'whatami/whatutils.py'}],
     [], ['whatable', 'decorate_some', 'whatamize_object', 'What.id'])

prop('C21', 'Partials and curried functions are described with their effective parameters',
     'The configuration of a partial, of partials of partials, and of curried and whatable functions has the name of '
     'the innermost function, exactly the parameters that a call would use, with the values it would use, in the '
     'order of the call, whatever the nesting and however the arguments were given, and as they are at that moment: '
     'after deriving, calling, or changing functions and partials, or after descriptions that failed or were '
     'interrupted, and while other threads describe. What cannot be called like that is refused with an error. '
     'Describing never changes a function or partial.',
     ['histories', 'schedules', 'fault_sequences', 'programs'],
     'All histories of such operations over nestings of partials, in up to three threads, with failures.',
     'The tests describe a few fixed nestings, once.',
     ['whatami/misc.py', 'whatami/what.py', 'whatami/plugins.py'],
     [{'name': 'callable2call', 'where': 'whatami/misc.py'}, {'name': 'is_iterable', 'where': 'whatami/misc.py'},
      {'name': 'partial_plugin', 'where': 'whatami/plugins.py'}, {'name': 'whatable', 'where': 'whatami/what.py'}],
     [], ['callable2call', 'what2id', 'obj2what', 'whatable'])

prop('C25', 'Ids have exactly the keys that were asked for, and the length that was asked for',
     'The name is the one asked for, if any. Attributes with the excluded prefixes, postfixes or names never make it to a configuration and all the others '
     'do; keys that are not part of the identity are left out of ids unless asked for. This holds for any kind of '
     'iterable of names, at any later time whatever happens to what was passed, for objects of classes decorated with '
     'other options, in several threads, and after failures and interrupts; a failure of a property or of an iterable '
     'reaches the caller. With a length limit, the id is the full one if it fits and otherwise the sha1 of the full '
     'one.',
     ['histories', 'schedules', 'fault_sequences', 'inputs'],
     'All histories of decorations, changes and descriptions with any options, with failing properties and '
     'iterables and interrupts.',
     'The tests try the defaults, a few options, and one limit.',
     ['whatami/misc.py', 'whatami/what.py'],
     [{'name': 'trim_dict', 'where': 'whatami/misc.py'}, {'name': 'What._trim_too_long', 'where': 'whatami/what.py'},
      {'name': 'whatareyou', 'where': 'whatami/what.py'}],
     [], ['What.id', 'What.keys', 'whatareyou', 'obj2what', 'config_dict_for_object', 'trim_dict'])

prop('C26', 'Configurations can be changed, copied, compared and looked into as plain values',
     'Under any history of set, copies (shallow, deep or pickled), changes of their parts, comparisons and lookups, a '
     'configuration has exactly what was put in it. Setting a key changes that key of that configuration only, or of '
     'a copy only if asked for. A copy starts equal and never shows later changes of the keys, excluded keys or names '
     'of the original, nor the other way round; a shallow copy has the very same values and a deep copy shares nothing. '
     'Two configurations are equal exactly when their names, output names and parameters are. Listing gives, sorted, '
     'exactly the keys of the asked-for depth and kind with their values; each key gives its value, also inside '
     'collections and through the what() of nested objects, and an absent one raises KeyError, or gives the default '
     'if there is one. If user code fails, the caller gets its error; an operation that fails, is interrupted or runs '
     'while other threads use the same configurations changes nothing else.',
     ['histories', 'schedules', 'fault_sequences'],
     'All histories of such operations over configurations that share parts, in up to three threads, with failures '
     'and interrupts.',
     'The tests set, copy and look up once, each in a new configuration.',
     ['whatami/what.py', 'whatami/whatutils.py'],
     [{'name': 'What.copy', 'where': 'whatami/what.py'}, {'name': 'What.set', 'where': 'whatami/what.py'},
      {'name': 'What.__getitem__', 'where': 'whatami/what.py'}, {'name': 'What.flatten', 'where': 'whatami/what.py'},
      {'name': 'What.__eq__', 'where': 'whatami/what.py'}, {'name': 'whatadd', 'where': 'whatami/whatutils.py'}],
     [], ['What.copy', 'What.set', 'What.get', 'What.flatten', 'What.to_dict', 'whatadd'])

prop('C27', 'The settings of a recorder can be changed while records are being added',
     'Column defaults and postprocessors of a recorder can be added, removed, overridden and read from any thread, '
     'also from postprocessors, at any moment. No change is lost or seen half made: reading the defaults or the '
     'postprocessors gives all of what they were at some instant during the call, and each record being added gets '
     'the defaults of some instant and goes through the postprocessors of some instant during that add, in their '
     'order. No call fails because of what the others do, and an interrupted change was made wholly or not at all.',
     ['histories', 'schedules', 'fault_sequences'],
     'All schedules of two to four threads that add records and change and read the settings, with interrupts.',
     'The tests change settings from one thread, between calls.',
     ['whatami/registry.py'],
     [{'name': 'Recorder.add', 'where': 'whatami/registry.py'},
      {'name': 'Recorder.add_column_defaults', 'where': 'whatami/registry.py'},
      {'name': 'Recorder.add_record_postprocessors', 'where': 'whatami/registry.py'}],
     [], ['Recorder.add_column_defaults', 'Recorder.remove_column_defaults', 'Recorder.add_record_postprocessors',
          'Recorder.override_record_postprocessors', 'Recorder.column_defaults', 'Recorder.record_postprocessors',
          'Recorder.add'])

prop('C28', 'The own what() of an object, and only that, describes it wherever it appears',
     'An object describes itself if, at that moment, it has a what() that is bound, needs no arguments and gives a '
     'configuration: its own or of its class or of a parent class, written by hand or put by whatable. Then that is '
     'what describes it everywhere: alone, in any collection, in other configurations, as a default, partial or '
     'curried argument, in registries, recorders and experiment information. Otherwise it is described as any other '
     'object, by what2id with its own id() if it has one, and decorating something with a what() that is not of that '
     'kind is refused and changes nothing. These methods can come and go, in objects and classes, without what was '
     'there before being used again; inspecting the object instead can always be forced; and if they fail, in '
     'whatever place the object is, their errors reach the caller.',
     ['histories', 'fault_sequences', 'inputs'],
     'All histories of giving, replacing and taking away such methods, decorating, changing and describing in twenty '
     'ways, with failing methods and interrupts.',
     'The tests describe each kind of object once, in one place, right after creating it.',
     ['whatami/what.py', 'whatami/whatutils.py', 'whatami/plugins.py'],
     [{'name': 'is_whatable', 'where': 'whatami/what.py'}, {'name': 'whatable', 'where': 'whatami/what.py'},
      {'name': 'what2id', 'where': 'whatami/whatutils.py'}, {'name': 'obj2what', 'where': 'whatami/whatutils.py'},
      {'name': 'whatable_plugin', 'where': 'whatami/plugins.py'}],
     [], ['is_whatable', 'whatable', 'what2id', 'obj2what', 'What.id', 'WhatamiPluginManager.build_string'])

prop('C29', 'Recorders can be subclassed, overriding add at any level',
     'A class that overrides add, deriving from Recorder directly or through other classes, is accepted exactly when '
     'ids is a positional parameter without default; otherwise creating the class fails. Calls to its add that miss '
     'required arguments add nothing and return a function that waits for the rest, that can be used, in any order '
     'and any number of times, without ever changing; the same for those of padd. Complete calls add exactly the '
     'records that the add of the parent adds with what it is passed, impossible ones are refused, failures in the '
     'body reach the caller, and no class or recorder is affected by those defined, created or used before or after.',
     ['histories', 'fault_sequences', 'inputs'],
     'All histories of defining classes with any signatures, at several levels, and of calls with part or all of the '
     'arguments, by position or name, with failing bodies and interrupts.',
     'The tests use one subclass and one waiting function, once.',
     ['whatami/registry.py', 'whatami/misc.py'],
     [{'name': '_RecorderMeta', 'where': 'whatami/registry.py'}, {'name': 'Recorder.padd', 'where': 'whatami/registry.py'},
      {'name': 'decorate_some', 'where': 'whatami/misc.py'},
      {'name': 'ensure_has_positional_args', 'where': 'whatami/misc.py'}],
     [], ['Recorder.add', 'Recorder.padd', 'ensure_has_positional_args', 'required_args', 'decorate_some'])

prop('C22', 'Old style ids are migrated to the id of the same configuration',
     'Migrating an old style id gives the current id of the configuration that it stands for (same name, keys and '
     'values, with its output name if there is one), whatever its values, the order of its keys and whether nested '
     'configurations are quoted; anything that is not an old style id is returned as it is; an id with two outputs is '
     'refused with ValueError. This holds whatever was parsed or migrated before, in any style, successfully or not, '
     'also if it was interrupted, in several threads, and whatever callers do to the results.',
     ['histories', 'schedules', 'fault_sequences', 'inputs'],
     'All histories of migrations and parses of generated ids and of things that are not ids, in up to three threads, '
     'with interrupts.',
     'The tests migrate a few fixed ids, once.', ['whatami/whatutils.py', 'whatami/parsers.py'],
     [{'name': 'id2whatami4', 'where': 'whatami/whatutils.py'}, {'name': 'oldid2what', 'where': 'whatami/whatutils.py'},
      {'name': 'build_oldwhatami_parser', 'where': 'whatami/parsers.py'}],
     ['OLD_WHATID_PARSER'], ['id2whatami4', 'oldid2what'])

prop('C23', 'The id of arrays and data frames changes when, and only when, their contents do',
     'Describing an array, series, data frame, index or categorical again gives the same id while its contents '
     '(elements, shape, types, masks, index, names) do not change, whatever is read from it, described, failed or '
     'interrupted meanwhile, in any thread, and wherever it is in a configuration. Changing any of its contents in '
     'place changes the id, and undoing the change brings the previous id back. Different contents never have the '
     'same id. Describing never changes the contents, and the failure of an element reaches the caller.',
     ['histories', 'schedules', 'fault_sequences', 'inputs'],
     'All histories of building, reading, changing, undoing and describing arrays and pandas objects, in up to three '
     'threads, with failing elements and interrupts.',
     'The tests describe a few arrays and frames, once.', ['whatami/minijoblib/hashing.py', 'whatami/plugins.py'],
     [{'name': 'NumpyHasher', 'where': 'whatami/minijoblib/hashing.py'},
      {'name': 'pandas_plugin', 'where': 'whatami/plugins.py'}, {'name': 'numpy_plugin', 'where': 'whatami/plugins.py'}],
     [], ['What.id', 'what2id', 'WhatamiPluginManager.build_string', 'hash'])


def main():
    built = {f[:-3].upper() for f in os.listdir(os.path.join(HERE, 'dst', 'props')) if f.startswith('c') and
             f[1:3].isdigit()}
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            doc = {'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                   'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
                   'anchors': {'files': p['files'], 'state': list(p['state']), 'mechanism': list(p['mechanism']),
                               'observe_at': list(p['observe']), 'hook_needed': None}}
            f.write(json.dumps(doc) + '\n')
    checks, na = [], []
    for p in P:
        if p['na']:
            na.append({'property': p['id'], 'reason': p['na']})
        elif p['id'] not in built:
            na.append({'property': p['id'], 'reason': 'check under construction'})
        else:
            checks.append({
                'property': p['id'],
                'quick_cmd': './check %s quick' % p['id'],
                'thorough_cmd': './check %s thorough' % p['id'],
                'evidence_file': 'evidence/%s.json' % p['id'],
                'technique': 'deterministic simulation with fault injection: seeded search over ' + TECH[p['id']],
                'level': 'exploration',
                'level_note': NOTE[p['id']]})
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump({'version': 1, 'setup_cmd': './setup.sh', 'hooks': {
            'guard': 'none',
            'enable': 'No hooks in /repo: the seams are the interpreter (trace functions, import system, locks, '
                      'clocks and host name replaced in the process of the check before importing whatami).',
            'source_commits': []},
            'checks': checks, 'not_applicable': na,
            'notes': 'See DESIGN.md. ./check --replay FILE replays a violation.'}, f, indent=1)
        f.write('\n')


TECH = {
    'C01': 'call histories, failing user code and interrupt points, against a reference mapping',
    'C02': 'thread schedules and interrupt points, linearizability against a reference mapping',
    'C03': 'call histories, failing hooks and interrupt points, against a reference table',
    'C04': 'thread schedules and interrupt points, linearizability against a reference table',
    'C05': 'call histories and failures, against a reference table',
    'C06': 'thread schedules and interrupt points, against the generated configurations',
    'C07': 'parse histories and interrupt points, against the generated configurations',
    'C08': 'insertion orders, hash seeds, processes and restarts, against a reference renderer',
    'C09': 'histories of descriptions and mutations with failures, against a reference renderer',
    'C10': 'failure points and kinds in user code and library, against a reference renderer',
    'C11': 'histories and thread schedules with failures, against a reference chain',
    'C12': 'import fault sequences on a simulated module tree, against a reference importer',
    'C13': 'import faults of optional libraries, against a reference renderer',
    'C14': 'clock, host and source faults and thread schedules, against a reference dictionary',
    'C15': 'histories of draws and restores, against the numbers produced',
    'C16': 'thread schedules and activations, against the known locals',
    'C17': 'histories of estimator operations with failures, against a reference parameter model',
    'C18': 'thread schedules and interrupt points, against a reference renderer',
    'C19': 'histories and thread schedules of calls over ids with failures, against a reference model',
    'C21': 'histories and thread schedules of deriving, changing and describing partials, against a reference model',
    'C22': 'histories and thread schedules of migrations and parses with interrupts, against the generated '
           'configurations',
    'C23': 'histories and thread schedules of reading, changing and describing with failures, against the contents',
    'C25': 'histories and thread schedules of decorations and descriptions with failures, against a reference model',
    'C26': 'histories and thread schedules of changes, copies and lookups with failures, against a reference model',
    'C27': 'thread schedules with interrupts, settings and added records checked for linearizability',
    'C28': 'histories of methods that come and go and of descriptions with failures, against a reference model',
    'C29': 'histories of generated subclasses and partial calls with failures, against a reference model',
    'C24': 'histories and thread schedules of decorations and calls with failures, against a reference model',
}
_COMMON = ' Exploration: seeded search, not exhaustive; trusts the simulator and the reference model; standard ' \
          'library calls are taken as atomic.'
NOTE = {
    'C01': 'Every history is compared after each call with an independent one-to-one mapping through the public '
           'lookups.' + _COMMON,
    'C02': 'Each concurrent history is checked for linearizability (interrupted calls may or may not have happened).'
           + _COMMON,
    'C03': 'Every history is compared after each call with an independent table.' + _COMMON,
    'C04': 'Each concurrent history is checked for linearizability.' + _COMMON,
    'C05': 'Every history is compared with an independent table in which each variant has its own settings.'
           + _COMMON,
    'C06': 'Each result is compared with the value its id was generated from.' + _COMMON,
    'C07': 'Each result is compared with the value its id was generated from.' + _COMMON,
    'C08': 'Ids computed in several interpreters with different hash seeds are compared with an independent '
           'renderer.' + _COMMON,
    'C09': 'Every description in a history is compared with an independent renderer of the current state.' + _COMMON,
    'C10': 'The outcome of each faulty description must be an error or the id of an independent renderer.' + _COMMON,
    'C11': 'Sequential histories are compared with a reference chain; concurrent ones checked for linearizability.'
           + _COMMON,
    'C12': 'Module trees are simulated by a meta path finder that injects the failures.' + _COMMON,
    'C13': 'Library import failures are injected by a meta path finder in fresh interpreters.' + _COMMON,
    'C14': 'Clock, host name, source and time service are simulated.' + _COMMON,
    'C15': 'Equality of ids is compared with equality of the produced numbers.' + _COMMON,
    'C16': 'Results are compared with the values each activation knows to have.' + _COMMON,
    'C17': 'Ids are compared with those of a reference renderer of the parameters.' + _COMMON,
    'C19': 'Each result and data frame is compared with a reference model over the generated configurations.' + _COMMON,
    'C24': 'Each call, class and id is compared with a reference model of what was decorated.' + _COMMON,
    'C21': 'Each description is compared with a reference model of the call.' + _COMMON,
    'C22': 'Each result is compared with the id and the configuration that the old id was generated from.' + _COMMON,
    'C23': 'The relation between ids and contents must be a function both ways along each history.' + _COMMON,
    'C25': 'Each id is compared with a reference renderer of the keys that must be there.' + _COMMON,
    'C26': 'Everything in all the configurations is compared with a reference model after each operation.' + _COMMON,
    'C27': 'Each concurrent history is checked for linearizability, defaults and postprocessors on their own.' + _COMMON,
    'C28': 'Each description is compared with a reference model of which what() each object has at that moment.' + _COMMON,
    'C29': 'The arguments that are missing, possible or passed on are those the signatures say (inspect); what is added '
           'is compared with the reference table.' + _COMMON,
    'C18': 'Each id is compared with an independent renderer, or with the id obtained alone.' + _COMMON,
}

def planted():
    """Writes the table of planted bugs in DESIGN.md."""
    rows = ['| Planted bug | What it breaks | Needs |', '| --- | --- | --- |']
    seeded = os.path.join(HERE, 'seeded')
    for name in sorted(os.listdir(seeded) if os.path.isdir(seeded) else ()):
        with open(os.path.join(seeded, name, 'meta.json')) as f:
            meta = json.load(f)
        rows.append('| %s | %s | %s |' % (name, meta['what_it_breaks'].replace('|', '/'), meta['needs'].replace('|', '/')))
    if len(rows) > 2:
        with open(os.path.join(HERE, 'DESIGN.md'), encoding='utf-8') as f:
            design = f.read()
        head, rest = design.split('<!-- seeded -->')
        with open(os.path.join(HERE, 'DESIGN.md'), 'w', encoding='utf-8') as f:
            f.write(head + '<!-- seeded -->\n' + '\n'.join(rows) + '\n<!-- /seeded -->' + rest.split('<!-- /seeded -->')[1])


if __name__ == '__main__':
    main()
    planted()
