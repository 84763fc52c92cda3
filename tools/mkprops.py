import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=state
    if observe: a["observe_at"]=[observe]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
p("P01","A deep copy is equal to its source and shares nothing with it",
 "When a deep copy reports success, everything reachable in the destination holds the same data as in the source: numbers, enums, bit-fields, strings and arrays of hinted length, selected union members, null pointers, casted and container pointers. Every pointer in the copy leads into memory newly obtained from the allocator given for the copy (or, where the source's pointer leads into the source object itself, to the same place of the destination), and pointers that met, pointed inside another block or formed a cycle in the source do the same in the copy. The source, and memory outside the destination, is not changed.",
 ["inputs","histories","fault_sequences"],"for every type graph, every object graph of it (shared targets, interior pointers, cycles, flexible arrays, unions, null pointers), every mode of treating unknown pointers and unions, and whichever allocations succeed",
 "tests copy a handful of hand-written objects with memory always available; sharing, interior pointers, cycles, alignment and hints combine without bound",
 ["src/value_deep.c","src/value.c","src/entry_tag.c"],[("two-pass copy: memory map of the source, then allocation and transfer","src/value_deep.c metac_value_copy_ex"),("detection of blocks, interior pointers and loops","src/value_deep.c metac_new_value_memory_map_ex")],
 "return value, destination memory, calls of the caller's allocator")
p("P02","A deep copy that cannot finish takes nothing and can be repeated",
 "If any allocation or hint callback fails during a deep copy, the call either still succeeds correctly or reports failure; it never crashes. After a reported failure every block taken from the caller's allocator has been given back exactly once through the caller's own free function, no library memory is kept, and the source is unchanged. When memory is available again the same copy succeeds.",
 ["fault_sequences","inputs"],"for every object graph and every set of failing allocations and callbacks during the copy, including repeated and permanent failures",
 "no existing test makes an allocation fail; each object graph has tens to thousands of failure points, each with its own clean-up path",
 ["src/value_deep.c","src/iterator.c","src/hashmap.c"],[("failure paths of the copy","src/value_deep.c metac_value_copy_ex, _value_copy_preallocate"),("clean-up of the partially built map","src/value_deep.c metac_memory_map_delete")],
 "return value, calls of calloc_fn/free_fn and of the default allocator")
p("P03","Deep free releases every owned block exactly once, or nothing at all",
 "When a deep free reports success, every separately allocated block reachable through the object's pointers has been passed exactly once to the given free function, whatever the sharing, interior pointers or cycles, and nothing else has been freed; the top-level memory of the object stays. When it reports failure, including because of failing allocations or hints, not a single block has been released and the object is intact.",
 ["inputs","fault_sequences"],"for every object graph, mode of unknown pointers/unions/flexible arrays and every set of failing allocations and callbacks",
 "a double or missed free depends on the shape of the graph and on where memory ran out; tests hold a few shapes and never run out of memory",
 ["src/value_deep.c"],[("memory map of the object and release in one pass","src/value_deep.c metac_value_free_ex")],"calls of free_fn, object memory")
p("P04","Deep comparison answers right or reports an error",
 "Deep comparison answers equal for two objects that hold the same data in the same shape, wherever they lie in memory, and unequal when any reachable number, bit-field, array length, element, selected union member or null pointer differs; padding and unselected members do not count. It gives the same answer with the arguments exchanged and changes neither object. When memory or a hint callback fails it answers correctly or with a negative error, never with a wrong verdict.",
 ["inputs","fault_sequences"],"for every pair of objects of one type, every mode and every set of failing allocations and callbacks",
 "a wrong verdict needs a difference at a particular place of a particular shape, or a failed allocation at a particular step",
 ["src/value_deep.c","src/value_base_type.c","src/value.c"],[("pairwise walk with memory maps of both objects","src/value_deep.c metac_value_equal_ex")],"return value")
p("P05","The text of a value is complete and exact, or absent",
 "Printing a value, shallow or deep, gives the one text determined by its type, data and hints (every member, element, string, enumerator name and pointer target in order), or no text at all. When memory or a hint callback fails it never gives a shortened, altered or nameless text, never crashes and keeps no memory. Printing never changes the object.",
 ["inputs","fault_sequences"],"for every type graph, object graph, walk mode, hint set and every set of failing allocations and callbacks",
 "the number of allocations grows with the object and each failure has its own path; tests print a few objects with memory always available",
 ["src/value_string.c","src/value.c","src/value_base_type.c"],[("iterative walk building the text bottom-up","src/value_string.c metac_value_string_ex")],"returned text")
p("P06","The C declaration of an entry is complete and exact, or absent",
 "The declaration text of any type, variable or function is the C declaration it was compiled from (qualifiers, pointers, arrays, function pointers and parameters, bit-field widths, nested anonymous types, enumerators), or there is no text at all. When memory fails it never gives a shortened or nameless declaration, never crashes and keeps no memory.",
 ["inputs","fault_sequences"],"for every type graph and every set of failing allocations",
 "declarator nesting is unbounded and each allocation failure has its own path",
 ["src/entry_cdecl.c"],[("iterative walk over the type graph","src/entry_cdecl.c metac_entry_cdecl")],"returned text")
p("P07","The hash map behaves as a map through every history and memory failure",
 "Under every history of operations the hash map answers as an abstract map would: size, presence, values, previous and removed values, and an iteration that shows every entry once and stops when told. A put or memoize that runs out of memory says so, stores no previous value, leaves the map unchanged and does not call the initialiser; failing to grow is invisible.",
 ["histories","fault_sequences"],"for every sequence of operations, hash function quality and every set of failing allocations",
 "tests insert a few keys; growth, collisions, removal and failures interact over long histories",
 ["src/hashmap.c","include/metac/backend/hashmap.h"],[("chained buckets with growth","src/hashmap.c hashmapPut, hashmapMemoize, hashmapRemove, expandIfNecessary")],"return values")
p("P08","The task iterator runs every task once, in order, through every failure",
 "The iterator that replaces recursion starts each submitted task exactly once, depth first and in the order of submission, calls a task again only when all its dependencies are finished, gives back each dependency's result, failure and input in order, and keeps each task's state and private context. Tasks may take results and submit further tasks in any pattern. A submission that runs out of memory says so and changes nothing.",
 ["histories","fault_sequences"],"for every task tree, every pattern of submitting and draining and every set of failing allocations",
 "the existing test walks one small tree",
 ["src/iterator.c","include/metac/backend/iterator.h"],[("explicit stack of dependency queues","src/iterator.c metac_recursive_iterator_next, _create_and_append_dep, _dequeue_and_delete_dep")],"order of calls and results")
p("P09","A tag map gives each entry its own tag and destroys each context once",
 "Looking up an entry goes through the levels in order and gives the tag last accepted for the entry itself, then (where the level allows it) for its final type, or what a linked map in that place answers; when no level has one it gives the default tag, else nothing. Setting a tag without permission to override is refused when one exists; a refused or failed set leaves the map as it was. Each accepted context is destroyed exactly once, when overridden or when the map is deleted, and key lookup in a tag string gives exactly the quoted value of that key.",
 ["histories","fault_sequences"],"for every history of creation, setting, overriding, lookup, linking and deletion and every set of failing allocations",
 "tests build one map once, with memory always available",
 ["src/entry_tag.c","include/metac/reflect/entry_tag.h"],[("layered maps by category","src/entry_tag.c metac_tag_map_tag, metac_tag_map_set_tag, metac_tag_map_delete"),("tag strings","src/entry_tag.c metac_entry_tag_string_lookup")],"returned tags, calls of the context destructor")
p("P10","Hints are resolved from the object's current data or the operation fails",
 "The ready-made hints make every deep operation see what the object's sibling data says at that moment: the element count held by a sibling, a zero-ended string with its terminator, the union member selected by a sibling or constant, the type and count of a casted pointer, the container around a member. When the sibling is missing, a count is negative or too big, a selected union member is not listed or memory fails, the operation reports failure instead of guessing a length, member or type; a pointer whose type is not listed is treated as any pointer of unknown type.",
 ["inputs","fault_sequences","histories"],"for every structure layout, sibling value (including zero), nesting and every set of failing allocations inside the hint",
 "a guessed default is only visible for particular sibling values or when an allocation inside the hint fails",
 ["src/entry_tag.c","src/value_deep.c","src/value_string.c"],[("hint callbacks","src/entry_tag.c metac_handle_count_by, metac_handle_zero_ended_string, metac_handle_container_of, metac_handle_union_member_select, metac_handle_ptr_cast")],"results of deep operations")
p("P11","Captured call arguments keep their values, or the capture fails cleanly",
 "Capturing a call stores, for every declared parameter, a private copy of the argument's value as the callee would see it (all base types, enums, pointers, arrays, structures, variable arguments by hint); later changes of the caller's variables do not alter it, and copies of the capture are independent of the original. When memory or a hint fails the capture reports failure, frees nothing twice, keeps nothing, and leaves the destination usable.",
 ["inputs","histories","fault_sequences"],"for every function signature, argument values, order of captures, copies and deletions, and every set of failing allocations and callbacks",
 "tests capture a few signatures with memory always available",
 ["src/value_with_args.c","src/value.c","src/entry.c"],[("parameter storage","src/value_with_args.c"),("wrapping of arguments","src/value_with_args.c metac_value_parameter_wrap, metac_value_parameter_vwrap")],"values read back from the capture")
p("P12","Arguments of a printf-like call are captured as the format says",
 "For a format string and matching arguments, capturing them stores one parameter per conversion, in order, with the type and value that conversion consumes; string arguments are stored whole, whatever their length. A format with an unsupported conversion, or a failing allocation, makes the capture report failure without crash, double free or lost memory.",
 ["inputs","fault_sequences"],"for every format string (flags, widths, precisions, length modifiers, literal percents, adjacent conversions), every argument values and string lengths, and every set of failing allocations",
 "format strings and argument values are unbounded; tests use a few formats, short strings and never run out of memory",
 ["src/printf_format.c","src/entry_tag.c"],[("format walk","src/printf_format.c metac_parse_format_specifier, metac_store_vprintf_params")],"values read back from the capture")
p("P13","Reading and writing through reflection touches exactly the named field",
 "Through any history of typed reads, writes, copies and comparisons of values obtained by member and element access, each write is seen by every later read of that field with its exact value (truncated only to the width of a bit-field), and no other bit of memory changes. Access with a wrong type, to a missing member or out of range is refused and changes nothing.",
 ["histories","inputs","fault_sequences"],"for every structure layout including packed bit-fields of any width, position and base type, every sequence of operations and every set of failing allocations on the way to a field",
 "layouts times histories are unbounded; a mask error shows only for particular widths, offsets and neighbouring data",
 ["src/value.c","src/value_base_type.c","src/entry.c"],[("bit-field and base type access","src/value_base_type.c"),("member and element access","src/value.c, src/entry.c")],"values read, memory image")
p("P14","Running out of memory never crashes, corrupts or leaks",
 "In any history of library calls on valid arguments, when any allocation fails at any moment the call returns with a failure it documents or a correct result: no crash, no invalid memory access, no double or foreign free, no endless loop, nothing lost when the caller has deleted what it was given, and objects passed in stay unchanged. Calls repeated after memory is back succeed.",
 ["fault_sequences","histories"],"for every history mixing values, entries, captures, hints, maps, printing, comparing, copying and freeing, and every set of failing allocations",
 "no existing test makes any allocation fail",
 ["src/value.c","src/entry.c","src/value_deep.c","src/value_string.c","src/entry_cdecl.c","src/value_with_args.c","src/entry_tag.c","src/iterator.c"],[("every allocation and its failure path","src/*.c")],"return values, simulated heap")
p("P15","Callers working on their own objects never influence one another",
 "When several callers run library operations at the same time, each on its own objects while sharing read-only reflection data and tag maps, every caller gets exactly the results it would get alone, under every interleaving of their steps.",
 ["schedules","fault_sequences"],"for every interleaving of the callers' steps at the granularity of basic blocks and for memory failing in some callers only",
 "hidden shared state shows only under particular interleavings, which tests neither create nor control",
 ["src/value_string.c","src/value_deep.c","src/entry_cdecl.c","src/value.c","src/entry_tag.c"],[("all working data is on the heap or stack of the call","src/*.c")],"results of each caller")
p("P16","Deep objects are processed with a bounded stack",
 "Printing, copying, comparing and freeing an object needs stack space that does not grow with the depth of the object: long chains of nested pointers and deeply nested types are processed with the same stack as short ones, in a bounded number of steps, and with memory failing at any depth the call still returns cleanly.",
 ["inputs","fault_sequences"],"for every depth of nesting of data and types that fits memory, with and without failing allocations",
 "tests use objects a few levels deep",
 ["src/iterator.c","src/value_deep.c","src/value_string.c","src/entry_cdecl.c"],[("heap-based iteration instead of recursion","src/iterator.c")],"deepest stack use of the calling task, steps")
p("P17","Generated reflection data describes the compiled program, in any order",
 "For any C program, built without optimisation and without C11 `_Atomic`, the generator's output compiles into it and describes every variable, function and type that is asked for exactly as the compiler laid it out: kinds, names, sizes, offsets and bit positions, array lengths, enumerator values, qualifiers, parameters and the locations of declarations, the same type always as the same entry. One input gives one output, byte for byte, in whatever order internal tables are visited, and going through a YAML or JSON export or through plain tables gives the same. The test generator lists each test of the program exactly once.",
 ["inputs","schedules"],"for every C program, compiler and debug format version, every order in which the generator's maps are iterated, and every input route",
 "the order of map iteration changes with each run and tests neither control it nor compare runs; programs are unbounded and tests describe a few types",
 ["pkg/metadb/metadb_builder.go","pkg/metadb/metadb_types.go","pkg/dwarfy/dwarf.go","modules/metac-reflect-gen","modules/metac-test-gen","include/metac/base.h"],[("type entries made unique by content","pkg/metadb/metadb_builder.go"),("emitted tables","modules/")],"generated files, what the compiled program finds in its own tables")
p("P18","A generator run delivers the complete result or fails",
 "A run of the generator that reports success has delivered exactly the output it delivers without faults; when an input can't be opened or read to its end, an ELF file, its debug sections or a JSON file is cut short, the working directory is missing, or the output or an exported file can't be written completely, the run reports failure, and it always ends. Transfers split into smaller pieces change nothing. With the project's build rule, a generation that failed or was killed at any moment is never taken as finished: the next build makes the complete file.",
 ["fault_sequences","crash_points","histories"],"for every set of failing or short opens, reads and writes, every kill point, every cut of the input and every history of interrupted builds",
 "no existing test makes I/O fail, stops the generator or runs the rule after an interrupted build",
 ["cmd/run","pkg/module/gotemplate","pkg/dwarfy/dwarf.go","mk/metac.mk","main.go"],[("template execution to the output","cmd/run, pkg/module/gotemplate"),("build rule","mk/metac.mk metac_target_tpl")],"exit status, generated file, later builds")
p("P19","A generator run uses exactly the module and settings it was given",
 "A run executes the first module of the asked name and of a known kind in the order of the search paths, with the templates of its includes found in the same way, and sees its default settings overlaid by the overrides in the order given: tables are merged key by key, any other value is replaced, whether an override is written as YAML or JSON, inline or in a file. When the module, an include or an override file is missing or can't be read, the run fails instead of going on with others.",
 ["inputs","fault_sequences","schedules"],"for every tree of modules, list of overrides, order of map iteration and every set of failing or short opens and reads",
 "trees of settings and search paths are unbounded and tests merge a few small ones; no test makes reading fail",
 ["pkg/override/override.go","pkg/module/module.go","pkg/module/gotemplate/gotemplate.go","cmd/run"],[("merging of settings","pkg/override/override.go MergeAll, Merge"),("search of modules","pkg/module/module.go InfoByName, NewInstance"),("includes","pkg/module/gotemplate/gotemplate.go Run")],"output of the module, exit status")
p("P20","Questions about a declaration are answered as it was declared",
 "Every question about an entry - kind, name, size, final type with the qualifiers on the way, base type with name, size and encoding, target of a pointer, elements, enumerators by number and by value, members by number, name and path, place of a member and of a bit-field, parameters and result of a function, parents, the entry found for a name at a place - is answered exactly as the program declared it, through any chain of typedefs and qualifiers, for a copy of the entry as for the entry itself; arrays of a given length made of pointers and arrays are what was asked for. What does not exist, is out of range, ambiguous or of another kind is answered as such. Questions change nothing; copies report failure when memory fails and lose nothing.",
 ["inputs","histories","fault_sequences","schedules"],"for every set of declarations (nesting, qualifiers, bit-fields, enumerators, signatures, near-equal names), every order of questions, copies and deletions, every interleaving of callers and every set of failing allocations",
 "declarations are unbounded; tests ask a few of them, one at a time, with memory always available",
 ["src/entry.c","src/entry_db.c","src/value_base_type.c","include/metac/reflect/entry.h","include/metac/reflect/loc.h"],[("answers go through the final entry","src/entry.c metac_entry_final_entry, metac_entry_byte_size"),("lookup by place","src/entry_db.c metac_entry_from_entry_db"),("copies","src/entry.c metac_new_entry, metac_new_element_count_entry")],"answers, simulated heap, the tables")
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
for x in P: assert len(x['title'])<=80,(x['id'],len(x['title']))
