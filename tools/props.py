#!/usr/bin/env python3
"""Source of properties.jsonl: `python3 tools/props.py > properties.jsonl`."""
import json

P = []


def p(id, title, statement, over, text, why, files, mech, state=None):
    a = {"files": ["pybindgen/" + f for f in dict.fromkeys(files.replace("cppclass.py", "cppclass.py").split())],
         "mechanism": [{"name": m[0], "where": m[1]} for m in mech]}
    if state:
        a["state"] = [{"name": s[0], "meaning": s[1]} for s in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over.split(), "text": text},
              "why_tests_cant": why, "anchors": a})


p("C01", "Numbers cross from Python to C++ and back unchanged, or raise",
  "In every wrapped function, a number of any supported type (bool, signed and unsigned integers of 8 to 64 bits, size and fixed-width aliases, float, double), passed by value, by reference, by pointer or as a fixed-length array, in, out or both ways, reaches C++ with exactly its Python value, and every number C++ returns or writes back reaches Python with exactly its C++ value. "
  "A value that is not a number, or an integer outside the range of a signed type of any width or of an 8- or 16-bit unsigned type, raises an exception and the C++ function is not run.",
  "inputs programs", "all supported numeric spellings x passing modes x directions, and for each the full boundary lattice of values (all values for 8- and 16-bit types in the thorough tier) and of non-numbers",
  "The tests call each type with one or two mid-range values; off-by-one range checks, truncation and wrong conversion letters only show at the boundaries of a type in one passing mode.",
  "typehandlers/inttype.py typehandlers/booltype.py typehandlers/doubletype.py typehandlers/floattype.py typehandlers/base.py",
  [("parameter handlers choose the conversion letter and range check", "typehandlers/inttype.py"), ("parse/build assembly", "typehandlers/base.py ForwardWrapperBase")])
p("C02", "Numbers cross from C++ into Python overrides and back unchanged, or raise",
  "When C++ calls a virtual method that Python overrides, every numeric argument arrives in Python with exactly its C++ value, and the number the override returns (or the values for its output parameters) reaches C++ exactly. "
  "When the override returns something that is not a number, or an integer outside the range of the declared signed or 8/16-bit unsigned type, a Python exception is reported and C++ receives no truncated value.",
  "inputs programs", "all numeric types x (argument, return value, output parameter) of overridable methods x boundary lattice of values",
  "Tests override a handful of int/string methods with single values; the reverse range checks of each width are separate code that no test reaches.",
  "typehandlers/inttype.py typehandlers/floattype.py typehandlers/doubletype.py typehandlers/booltype.py typehandlers/base.py cppmethod.py",
  [("return handlers' Python-to-C++ conversion", "typehandlers/inttype.py convert_python_to_c"), ("reverse wrapper generation", "typehandlers/base.py ReverseWrapperBase")])
p("C03", "Text and bytes cross the boundary with their exact content and length",
  "A string or bytes argument of any length, including empty, non-ASCII and (for length-carrying types) embedded NUL, reaches C++ with exactly its encoded bytes, and a string C++ returns, writes to an output parameter, stores in an attribute or passes to a Python override reaches Python with exactly that content. "
  "A string with an embedded NUL is refused where C++ receives a bare character pointer, and an argument of the wrong type, None included, raises without running the function.",
  "inputs programs", "all string-like types (C string, single character, std::string by value/pointer/reference, Glib::ustring) x directions x all strings up to a length over an alphabet of ASCII, NUL, 2-, 3- and 4-byte characters",
  "Tests pass one ASCII literal per type; length/NUL/encoding defects only show for particular contents in particular passing modes.",
  "typehandlers/stringtype.py cppattribute.py typehandlers/base.py",
  [("string parameter and return handlers", "typehandlers/stringtype.py")])
p("C04", "Calls bind positional, keyword and default arguments as declared",
  "Any call of a wrapped function, method, static method or constructor, with any mixture of positional and keyword arguments, passes each value to the parameter of that position or name and passes the declared default for every parameter left out. "
  "A call with a missing required argument, a surplus argument, an unknown keyword or a parameter given twice raises TypeError and runs nothing.",
  "inputs programs", "all signatures of up to 4 parameters with every required/defaulted split over mixed types x all calls formed from positional prefixes and keyword subsets, including duplicate, unknown and surplus arguments",
  "Tests use a few fixed call shapes; the product of signature shapes and call shapes is never enumerated.",
  "typehandlers/base.py function.py cppmethod.py typehandlers/inttype.py typehandlers/stringtype.py typehandlers/floattype.py",
  [("parse format and keyword list construction", "typehandlers/base.py ParseTupleParameters"), ("wrapper body generation", "typehandlers/base.py ForwardWrapperBase.generate_body")])
p("C05", "Results are the return value first, then outputs in declaration order",
  "A wrapped call that succeeds returns None when there is nothing to return, the bare value when there is exactly one, and otherwise a tuple holding the return value first and then each output or in-out parameter in declaration order. "
  "The same order governs the tuple a Python override returns to C++.",
  "programs", "all combinations of return type (void, numeric, string, bytes, object, pointer, container, enum) and up to three parameters each in, out or in-out, of mixed types, forwards and in overrides",
  "Tests fix a few combinations; handlers each append to the result on their own, so an ordering defect needs a particular pairing of types.",
  "typehandlers/base.py typehandlers/stringtype.py cppclass.py container.py enum.py typehandlers/smart_ptr.py",
  [("build-value assembly", "typehandlers/base.py BuildValueParameters"), ("per-type add_parameter(prepend)", "typehandlers/*.py")])
p("C06", "An overloaded call runs the first declared overload that accepts it",
  "A call to an overloaded function, method, static method or constructor runs exactly one overload, namely the first in declaration order whose parameters accept the arguments, and returns its result. "
  "If none accepts them TypeError is raised, nothing is run and no object is left half-built; and an error raised while running the chosen overload reaches the caller as it is.",
  "inputs programs", "all overload sets of up to 3 signatures drawn from a pool of types in every order x all argument tuples from a pool of values x positional/keyword calls x function/method/static/constructor/inherited overloads",
  "Tests have a few overload pairs; order sensitivity and error propagation depend on the whole set.",
  "overloading.py function.py cppmethod.py cppclass.py",
  [("overload dispatcher generation", "overloading.py OverloadedWrapper.generate"), ("constructor dispatch", "cppmethod.py CppOverloadedConstructor")])
p("C07", "Each C++ object is destroyed exactly once, when its last owner goes",
  "Over any sequence of creating wrapped objects, passing them to and receiving them from C++ by value, reference or pointer, with every declared combination of ownership transfer, caller-owned return, borrowed return and by-value copy, and dropping Python references in any order, every C++ object owned by Python is destroyed exactly once and no later than its last Python owner, every object owned by C++ is never destroyed by Python, and no destroyed object is ever accessed.",
  "histories programs", "all operation sequences up to depth 4 (quick) or 5-6 (thorough) over 2 wrapper slots and the full alphabet of ownership modes, for plain, virtual (Python-subclassed) and abstract classes",
  "Tests check isolated single-call ownership; double free, leak and use-after-free are properties of histories.",
  "cppclass.py cppclass.py cppmethod.py",
  [("pointer/reference return and parameter handlers", "cppclass.py"), ("wrapper deallocation", "cppclass.py _get_delete_code"), ("object-not-owned flag", "cppclass.py")],
  [("ownership flag", "whether the wrapper deletes its C++ object"), ("live set", "C++ objects constructed and not yet destroyed")])
p("C08", "Reference-counted C++ objects hold exactly one count per owner",
  "For a class with increment/decrement functions or methods, after any sequence of construction, passing by pointer or reference with or without ownership transfer, returning owned or borrowed pointers, reading pointer attributes, copying and dropping wrappers, the C++ reference count equals the number of C++ holders plus the number of wrappers that refer to the object (one, with the map registry). "
  "The object is released exactly when that number reaches zero, and never used after.",
  "histories programs", "all operation sequences up to depth 4-6 over two wrapper slots and a C++ holder, for method-based and function-based policies with and without peek function and Python subclasses",
  "A missing or extra count by one call is invisible until a later drop; tests only exercise short fixed histories.",
  "cppclass.py cppclass.py cppmethod.py pytypeobject.py",
  [("memory policies", "cppclass.py ReferenceCounting*Policy"), ("incref/decref emission", "cppclass.py")],
  [("C++ refcount", "count kept by the wrapped object"), ("holders", "C++ holders plus live wrappers")])
p("C09", "Shared-pointer classes keep objects alive exactly as long as an owner exists",
  "For a class held by a shared pointer, after any sequence of construction, passing, storing, returning, reading and assigning attributes, passing through the overrides of another class and dropping, the use count equals the number of C++ holders plus the number of wrappers that refer to it. "
  "The object is destroyed exactly when the last owner goes, and a null shared pointer comes back as None.",
  "histories programs", "all operation sequences up to depth 4-6 over two wrapper slots, a C++ store and an owning attribute, for std::shared_ptr by value and const, with and without Python subclasses (of classes without virtual methods; the generator supports no others)",
  "Tests create and return one shared object; use-count drift needs sequences.",
  "typehandlers/smart_ptr.py cppclass.py cppclass.py",
  [("shared_ptr handlers", "typehandlers/smart_ptr.py"), ("smart pointer memory policy", "typehandlers/smart_ptr.py StdSharedPtr")])
p("C10", "While a C++ object has a live wrapper, getting it again gives the same wrapper",
  "With the map wrapper registry (StdMapWrapperRegistry), receiving from C++ a borrowed or shared pointer or reference to an object that already has a live wrapper gives that very wrapper object (if it was wrapped as the class asked for, through the same address), with its Python attributes and subclass intact, and never a wrapper of an object that was destroyed, even when a new object reuses its address. "
  "After the wrapper goes away, a fresh one is made on demand. (An in-out reference argument of a Python override is a wrapper of its own, for the time of the call.)",
  "histories", "all operation sequences up to depth 4-6 of create/store/fetch/drop/destroy/re-create-at-the-same-address over two slots, for reference-counted, smart-pointer, borrowed and Python-subclassed objects, and for the null registry",
  "Stale or missing registry entries show only after address reuse following a particular order of drops.",
  "wrapper_registry.py cppclass.py cppclass.py typehandlers/smart_ptr.py",
  [("registry map insert/lookup/erase", "wrapper_registry.py StdMapWrapperRegistry"), ("lookup before wrapping", "cppclass.py common_shared_object_return")],
  [("registry", "map from C++ address to Python wrapper")])
p("C11", "A custodian keeps its ward alive, and no longer than the custodian lives",
  "Whenever a function, method or constructor declares that one of its objects (parameter, receiver or result) is the custodian of another, the ward's Python wrapper stays alive after the call for as long as the custodian does and is released when the custodian is destroyed. "
  "A call refused for its arguments leaves no wrapper alive because of it, and the relation holds for every object supported as custodian or ward, whatever the order of the calls.",
  "histories programs", "all placements of (custodian, ward) over parameters, self and result, pre- and post-call, x all call/drop sequences up to depth 4-5",
  "Tests contain two placements with one history each.",
  "cppclass.py cppclass.py function.py cppmethod.py",
  [("custodian/ward registration", "cppclass.py add_ward / implement_parameter_custodians_*")])
p("C12", "Cycles through Python subclasses are collected, live objects are not",
  "Running the cyclic collector at any point never destroys or clears an object that Python code or C++ still refers to, and reclaims every unreachable cycle formed through instance attributes of wrapped objects or Python subclasses of them, destroying their C++ parts exactly once.",
  "histories programs", "all operation sequences up to depth 4-6 over objects linked through attributes, C++ holders and collector runs, for plain, virtual, and reference-counted classes with Python subclasses",
  "Collector timing is a schedule; the tests run it at one point.",
  "cppclass.py pytypeobject.py typehandlers/smart_ptr.py",
  [("tp_traverse/tp_clear generation", "cppclass.py _generate_gc_methods")])
p("C13", "Class hierarchies in Python mirror C++: subtyping, addresses, dynamic type",
  "For any hierarchy of wrapped classes (single, multiple and diamond-free multi-level), an instance is accepted wherever a base is expected and inherited methods and attributes act on the same C++ object at the right address; an unrelated object is refused with TypeError. "
  "A polymorphic object returned through a base pointer comes back as its most derived wrapped type, or as the nearest declared type when its dynamic type is not wrapped.",
  "programs inputs", "all hierarchies of up to 4 classes with up to two bases, each polymorphic or not and with automatic downcasting on or off, x all (actual, expected) class pairs, all inherited methods/attributes, all dynamic types of returned objects",
  "Tests contain a few fixed hierarchies; base pointer adjustment and narrowing depend on shape and order of declaration.",
  "cppclass.py cppclass.py cppmethod.py module.py",
  [("type map / narrowing", "cppclass.py register typeid_map"), ("parent method cloning under multiple inheritance", "cppclass.py")])
p("C14", "Virtual methods dispatch to the Python override, or else to C++",
  "A virtual method called from C++ or Python on an object runs the most derived Python override if there is one and otherwise the C++ implementation, exactly once, with the given arguments; a Python override can call the base implementation without recursion. "
  "An override that raises or returns a wrong type has its error reported without corrupting state, and a pure virtual method without override never runs garbage.",
  "programs histories", "all subclass shapes over up to 3 levels (which of const/non-const, public/protected, pure/non-pure, overloaded methods are overridden at which level) x call origin x override behaviours (return, parent call, raise, wrong type, delete self)",
  "The existing tests cover one level of override with benign return values.",
  "cppclass.py cppmethod.py typehandlers/base.py",
  [("helper class virtual proxies", "cppclass.py CppHelperClass, cppmethod.py CppVirtualMethodProxy"), ("parent caller", "cppmethod.py CppVirtualMethodParentCaller")])
p("C15", "Python runs only with the interpreter lock held; unblocked calls release it",
  "A function declared to unblock threads runs its C++ body without the interpreter lock, so that other Python threads make progress, and holds it again when it returns, raises a declared exception or fails; every other function runs with the lock held throughout. "
  "A virtual method called from C++ on any thread acquires the lock before running Python and restores the previous state afterwards, on all success and error paths.",
  "schedules programs", "all nestings up to depth 3-4 of unblocked/blocked forward calls, overrides, throwing bodies and foreign-thread callbacks x every interleaving of two threads' call steps",
  "Lock misuse shows only on error paths or nested callbacks, and mostly does not fail deterministically.",
  "typehandlers/base.py function.py cppmethod.py settings.py",
  [("save/restore emission", "typehandlers/base.py ForwardWrapperBase.generate_body"), ("PyGILState in reverse wrappers", "typehandlers/base.py ReverseWrapperBase")],
  [("lock state", "whether the running thread holds the interpreter lock")])
p("C16", "Declared C++ exceptions surface as the matching Python exception",
  "When a wrapped function, method, static method or constructor throws an exception declared for it, Python sees an instance of the exception class mapped to the first declared type that matches the thrown object, with the configured message, and the call has no other effect: no leak, no lost reference, usable interpreter. "
  "Declared exception hierarchies map to Python hierarchies, and a call that does not throw is unaffected by the declarations.",
  "programs inputs", "all throw lists (ordered subsets of a hierarchy of exception types plus standard errors) x all thrown types x callables (function, method, static, constructor, overloaded, unblocked) x parameter cleanup obligations",
  "Tests throw one type in each of a few callables.",
  "cppexception.py function.py cppmethod.py module.py",
  [("try/catch emission", "function.py and cppmethod.py generate_call"), ("exception class creation", "cppexception.py")])
p("C17", "Attributes read and write the C++ member they name, and nothing else",
  "Reading a wrapped instance, static or accessor-based attribute gives the current C++ value, assigning one of the right type stores exactly that value in that member of that object only, and constant or getter-only attributes reject assignment. "
  "Assigning a wrong type, deleting, or assigning an out-of-range value raises and leaves every member unchanged.",
  "histories programs", "all sequences up to depth 3-4 of get/set/delete/bad-set over every attribute kind (type x instance/static x plain/const/getter/setter/custom) on two objects, against a record model",
  "Tests assign a few fields once; deletion, error atomicity and cross-talk between attributes are never enumerated.",
  "cppattribute.py cppcustomattribute.py cppclass.py",
  [("getter/setter wrappers", "cppattribute.py"), ("metaclass for statics", "cppattribute.py PyMetaclass")])
p("C18", "Containers convert, hold and iterate exactly their elements",
  "A wrapped sequence, set or map container built from Python, passed by value, reference or pointer, returned, stored in attributes or given to overrides holds exactly the elements given, in the container's order, and iterating it from Python yields exactly the elements C++ holds, each time it is iterated. "
  "A conversion that fails on any element raises and leaves the destination untouched, and iterators and containers can be dropped in any order.",
  "inputs histories programs", "all element sequences up to length 3-4 over small alphabets per container kind and element type, all directions, invalid element at each position, and all iterator/container/drop histories up to depth 4-6",
  "Tests convert a few three-element literals.",
  "container.py cppclass_container.py typehandlers/base.py",
  [("container conversion functions and iterator types", "container.py"), ("container traits of classes", "cppclass_container.py")])
p("C19", "Operators and protocols compute exactly what the C++ operators compute",
  "For every declared binary, in-place, unary, comparison, output-stream and sequence operation, the Python operator on wrapped operands gives the value the C++ operator gives, an in-place operator leaves that value in its variable, and a derived class keeps the operators of its base class. "
  "Operand types with no declared overload yield TypeError (or the neutral answer for equality), an index or key reaches C++ as it is or raises, an exception set by C++ reaches the caller as it is, and operands are otherwise unchanged.",
  "programs inputs", "all subsets of declarable operators per class (one class per subset class) x all operand pairs from the wrapped classes, numbers and foreign objects; all index values around the bounds for sequence protocols",
  "Tests declare all operators on one class and evaluate few pairs; slots are built per declared subset.",
  "cppclass.py pytypeobject.py",
  [("numeric slots", "cppclass.py _generate_number_methods"), ("comparison and sequence slots", "cppclass.py, pytypeobject.py")])
p("C20", "Copies are faithful and independent",
  "Copying a wrapped object, through its copy constructor, copy.copy, or passing and returning it by value, yields a distinct object equal in every member and in every Python instance attribute the copy protocol promises, and afterwards no operation on either one changes the other or its lifetime.",
  "histories programs", "all sequences up to depth 4 of copy (each route)/mutate/drop over two or three slots, for plain, virtual, Python-subclassed, attribute-carrying and container-holding classes",
  "Tests check one copy and one attribute.",
  "cppclass.py cppclass.py cppmethod.py",
  [("__copy__ generation", "cppclass.py"), ("by-value parameter and return handlers", "cppclass.py")])
p("C21", "Enumerations expose every value where declared and convert both ways",
  "Every enumerator of a wrapped (scoped by namespace or class, or anonymous) enumeration is reachable in Python under its declared scope with its C++ value, and enum parameters, return values, attributes, default arguments and override results convert exactly between the integer and the enumerator.",
  "programs inputs", "enums declared at module, namespace, nested class level and anonymous, with negative, sparse and large values x all passing modes and values",
  "Tests have one enum in few positions.",
  "enum.py module.py cppclass.py",
  [("enum constants and handlers", "enum.py")])
p("C22", "Every declaration is reachable in Python at exactly its declared place",
  "Functions, classes, enums, exceptions and typedefs declared in a module, C++ namespace, submodule or nested class are reachable under the corresponding Python path and name (or custom name), denote the entity of that C++ scope even when names repeat across scopes, and nothing else public is added. "
  "Renamed, templated and foreign-namespace declarations call the C++ entity they name, and every submodule can be imported by its dotted name.",
  "programs", "all trees of up to 3 nested scopes (module, namespace, submodule, class) with repeated names x kinds of entity x custom names",
  "Tests fix one small layout.",
  "module.py function.py cppclass.py utils.py",
  [("module tree generation", "module.py do_generate"), ("name mangling", "utils.py get_mangled_name")])
p("C23", "Generation is a pure function of the module description",
  "Generating the same module description gives the same bytes in every process, under every hash seed and locale, however many other modules were described or generated before it, and whether the output goes to one file object or another. "
  "Describing a module never changes what another, independent module generates.",
  "configurations histories", "a family of module descriptions covering every declaration kind x hash seeds x prior-generation histories (all ordered pairs of descriptions) x sinks",
  "Tests generate each module once, with the hash seed pinned.",
  "module.py cppclass.py typehandlers/base.py container.py utils.py settings.py",
  [("global type registries", "typehandlers/base.py"), ("module generation state", "module.py")])
p("C24", "A bad definition is reported and skipped without damaging the good ones",
  "With an error handler that accepts the error, any wrapper that cannot be described or generated (unknown types, bad configuration, failing code generation) is dropped and reported once with the right wrapper, and every other declaration in the module compiles and works exactly as if the bad one had never been declared. "
  "Without a handler, or when it declines, the error is raised to the caller instead of producing output with a missing piece.",
  "programs fault_sequences", "every placement of 1-2 bad definitions (each kind of failure) among the good declarations of a module covering every declaration kind",
  "Tests never inject failing definitions and compare the rest.",
  "module.py cppclass.py function.py cppmethod.py overloading.py utils.py settings.py",
  [("call_with_error_handling", "utils.py"), ("skipped_wrappers and partial generation", "cppclass.py, overloading.py")])
p("C25", "Splitting output into sections changes files, not behaviour",
  "Generating a module divided into sections gives a set of files that compile and link into an extension with exactly the same public contents and behaviour as generating it into one file, wherever the section boundaries are put.",
  "programs configurations", "every assignment of the declarations of a module (classes, subclasses, functions, containers, enums, exceptions, submodule) to up to 2-3 sections",
  "Tests use one fixed section layout.",
  "module.py typehandlers/codesink.py cppclass.py container.py",
  [("section sinks", "module.py MultiSectionFactory")])
p("C26", "Any legal spelling of a C++ type denotes the same handler",
  "Every equivalent spelling of a supported C++ type (spacing, const placement, leading ::, order of unsigned/long/int words, registered aliases of it, with pointer, reference and const qualifiers) is accepted wherever the type is and behaves identically, and a type that is not supported is always refused with the type lookup error, never taken for another. "
  "Parsing a type and printing it back preserves its meaning.",
  "inputs programs", "all spellings generated from a grammar of base types x cv placements x up to 2-3 declarators x spacing variants",
  "Tests parse about a dozen type strings.",
  "typehandlers/ctypeparser/__init__.py typehandlers/base.py",
  [("type tokenizer and normalizer", "typehandlers/ctypeparser/__init__.py"), ("matchers, aliases and transformations", "typehandlers/base.py TypeMatcher")])
p("C27", "Any legal C++ names can be wrapped together without clashing",
  "Whatever legal identifiers the wrapped API uses for its parameters, functions, methods, classes, members and namespaces, including repeated prefixes, digits at the end and names that generated code also likes to use, the generated wrapper compiles and each name is bound to the right thing.",
  "programs", "all tuples of up to 3 parameter names from a pool of adversarial identifiers x parameter types x function/method/constructor/virtual override",
  "Tests use ordinary names.",
  "typehandlers/base.py typehandlers/codesink.py cppmethod.py function.py utils.py",
  [("variable reservation and renaming", "typehandlers/base.py DeclarationsScope")])
p("C28", "Modules that import classes from other modules interoperate",
  "A module that declares classes as imported from another wrapped module accepts, returns, subclasses and overrides objects of those classes interchangeably with the defining module, sharing one Python type, the same ownership rules and the same narrowing. "
  "Import order does not matter beyond the declared dependency, and a missing module or class raises at import.",
  "programs histories", "two- and three-module chains x all cross-module call/ownership/narrowing sequences up to depth 3-4 x import orders",
  "Tests import one class from one module along one path.",
  "module.py cppclass.py cppclass.py",
  [("import_from_module", "cppclass.py, module.py")])
p("C29", "Scanning a header yields the same module as declaring it by hand",
  "For any header within the supported subset of C++ (classes, inheritance, constructors, methods with their qualifiers and visibility, attributes, enums, namespaces, functions, default arguments, annotations), scanning it registers exactly the public API it declares, the generated module behaves as the same declarations written by hand, and the script the scanner writes out regenerates that same module.",
  "programs", "a grammar of headers combining up to 2-3 of each declaration feature and annotation, compared three ways",
  "Tests scan two fixed headers and exercise a few calls.",
  "castxmlparser.py module.py",
  [("declaration scanning", "castxmlparser.py ModuleParser"), ("pygen code emission", "castxmlparser.py PygenSink")])
p("C30", "No call, successful or failing, leaks or over-releases memory or references",
  "Repeating any wrapped call any number of times, with valid or invalid arguments, whether it succeeds, raises a conversion error, an overload mismatch, a C++ exception or an error from an override, leaves the Python reference counts of its arguments, the number of live Python objects and the amount of live C++ memory as they were. Importing a module takes the references that its names need, so that removing names and leaving the process in any order is harmless.",
  "inputs histories fault_sequences", "every callable of a module covering every type handler and direction x every argument position made invalid in turn x repetition, measured on allocator counters",
  "Tests run each call once and look only at its result.",
  "typehandlers/base.py typehandlers/stringtype.py cppclass.py container.py overloading.py cppattribute.py",
  [("cleanup-ordered code blocks", "typehandlers/base.py CodeBlock"), ("per-type reference handling", "typehandlers/*.py")])
p("C31", "Objects that may not be created, called or touched from Python raise instead",
  "Constructing an abstract class, a class declared non-constructible or one without an accessible constructor raises TypeError, and the object of a singleton is never destroyed by its wrappers; private members are not exposed, protected members are usable only by Python subclasses through self, and deprecated callables warn (or raise when warnings are errors) yet otherwise work as normal. "
  "No such attempt crashes the interpreter or changes C++ state.",
  "programs inputs", "all combinations of constructor/destructor/method visibility, purity, singleton and non-constructible flags, deprecation markings x construction, subclassing, call and override attempts",
  "Tests try one abstract class and one singleton.",
  "cppclass.py cppmethod.py function.py overloading.py",
  [("constructor selection", "cppclass.py"), ("visibility handling", "cppmethod.py"), ("deprecation warnings", "typehandlers/base.py")])
p("C32", "Implicit conversions and type transformations apply exactly where declared",
  "A parameter of a class to which others are declared implicitly convertible accepts exactly the class, its subclasses and those source types, passing C++ the converted value, and refuses everything else with TypeError. "
  "A registered type transformation is applied to each type it matches as a parameter, return value or override argument, and to no other, with the same result as writing the conversion by hand.",
  "programs inputs", "all conversion graphs over 3 classes x passing modes (value, const reference, others) x all argument classes; smart-pointer style transformations x directions x kinds of classes",
  "Tests have one conversion and one transformation.",
  "cppclass.py cppclass.py typehandlers/base.py container.py converter_functions.py",
  [("converter functions", "converter_functions.py"), ("implicit conversion functions", "cppclass.py"), ("transformations", "typehandlers/base.py TypeTransformation")])
p("C33", "Python's objects are made and completed by the declared creation functions",
  "When a class or the nearest of its base classes declares an instance creation function or a post-creation function, every C++ object that Python creates for it (by constructors, for Python subclasses, as a copy, from results and attributes, for overrides) is made by that function and completed exactly once, with the interpreter lock held, its Python overrides already in effect and nothing completed when construction fails; objects that C++ created pass through neither. "
  "Helper class hooks of a class and its bases run once for each helper class, those of a base before those of classes derived from it; inherited default and copy constructors construct as those of the base class allow.",
  "programs histories", "kinds of classes (plain, subclassable, narrowed, reference counted, shared pointer) x placements of the functions over a hierarchy x routes on which objects are created, in sequences",
  "The tests set one creation function on one class and look at one object; whether a route of creating an object forgets or repeats a step shows only on that route.",
  "cppclass.py cppmethod.py container.py typehandlers/smart_ptr.py",
  [("creation and post-creation functions", "cppclass.py write_create_instance, write_post_instance_creation_code"), ("constructors", "cppmethod.py CppConstructor"), ("hooks and constructors of bases", "cppclass.py get_mro, inherit_default_constructors")])

if __name__ == '__main__':
    for x in P:
        assert len(x['title']) <= 80, (x['id'], len(x['title']))
        n = x['statement'].count('. ') + 1
        assert n <= 3, (x['id'], n)
        print(json.dumps(x))
