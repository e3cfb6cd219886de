#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl (run it after editing)."""
import json
P=[]
def p(id,title,statement,over,quant,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    P.append(dict(id=id,title=title,statement=statement,quantifier={"over":over,"text":quant},why_tests_cant=why,anchors=a))

p("C01","Binary operators compute the Go operator on their operand values",
  "For operands of one type (int, float64, string or bool) every supported binary operator (+ - * / == != > >= < <= && ||, with string + as concatenation) yields exactly what the Go operator yields on the values the two operand expressions denote, and ! yields the negation. This holds in the same way whether an operand is a variable, a literal, a field reached through pointers or slices, a call, or a nested expression, and the operand variables keep their values.",
  ["inputs","programs"],"all operand values (all int64, all float64 including NaN and infinities, all strings, both bools), all operand kinds, all operators",
  "the tests evaluate each operator on one or two hand-picked values and only a few operand kinds; a wrong branch of the operator/kind/indirection table is only seen on values or operand kinds that are not sampled",
  ["est/expr/int.go","est/expr/float.go","est/expr/string.go","est/expr/bool.go","est/expr/binary.go","est/expr/unary.go","est/op/operand.go","binary.go","unary.go"],
  [("operator dispatch tables","est/expr/{int,float,string,bool}.go computeBinary*"),("direct/indirect evaluation of operands","est/op/operand.go Operand.Exec/Pointer")])
p("C02","Comparisons with pointer operands compare the pointed-to values, nil safely",
  "When operands are pointers to int, uint (any width), float, string or bool and both are non-nil, ==, !=, <, <=, >, >= give the same answer as the Go comparison of the pointed-to values (in the pointed-to type's own order). When an operand is nil nothing is dereferenced, the evaluation does not panic, and a nil pointer is never reported equal to a non-nil operand.",
  ["inputs"],"all pairs of pointer operands, nil or not, of every supported width, all pointed-to values",
  "tests compare a handful of small values; errors in width or sign (for example an unsigned order done on the low byte) need values above 255 or with the top bit set",
  ["est/expr/ptr.go","est/expr/binary.go"],
  [("per-kind compare functions","est/expr/ptr.go computePtr")])
p("C03","Expressions group by precedence and associate to the left",
  "An unparenthesised expression means what its fully parenthesised form means, where * and / bind tighter than + and -, those bind tighter than comparisons, comparisons tighter than &&, and && tighter than ||, and operators of equal precedence associate to the left. Parentheses, ! on a parenthesised or single operand, and white space between tokens do not otherwise change the value.",
  ["programs"],"all expressions over the supported operators, of any length and nesting",
  "the parser tests pin the tree of a dozen short expressions; grouping errors appear only for particular operator sequences",
  ["parser/expr.go","parser/operand.go","parser/assign.go","parser/if.go"],
  [("expression folding","parser/operand.go addEquationIfNeeded"),("parentheses","parser/expr.go matchEquationExpression")])
p("C04","#set stores exactly the right-hand value and nothing else",
  "After #set(target = expression) the target variable or field holds the value of the expression (converted when an int is assigned to a float or the like), for every supported type and for targets reached directly or through pointers, and no other variable, field, literal or shared default changes. Assigning through a nil pointer changes no state that any other expression, template or execution can observe.",
  ["inputs","programs","histories"],"all values, all supported target types, direct, embedded and pointer-reached targets, any sequence of assignments",
  "tests assign a few types to a few targets and look only at the target; a store of the wrong width, to the wrong field or to a shared constant needs other types or a second look at unrelated state",
  ["est/stmt/assign/assign.go","est/stmt/assign/int.go","est/stmt/assign/float.go","est/stmt/assign/string.go","est/stmt/assign/bool.go","est/stmt/assign/map.go","stmt.go","est/op/upstream.go","est/utils.go"],
  [("typed stores","est/stmt/assign/*.go"),("zero value of a nil path","est/op/upstream.go")])
p("C05","The output buffer holds exactly the bytes appended, in order",
  "Starting from any initial capacity (including 0), after any sequence of appends of strings, bytes, integers, floats and bools the buffer's content is the concatenation of what was appended, in order; nothing is lost, duplicated, overwritten or left over when the buffer grows. After a reset the content is empty and later appends behave the same.",
  ["inputs","histories","configurations"],"every initial capacity, every append sequence and every appended length, including lengths exactly at, just below and above the capacity boundary",
  "tests render short outputs into a few capacities; growth bugs live at exact capacity boundaries and in long append histories",
  ["est/buffer.go"],
  [("growth","est/buffer.go growIfNeeded"),("append","est/buffer.go AppendString/AppendInt/AppendByte")],
  state=[("buf,index","backing bytes and number of bytes written","est/buffer.go Buffer")])
p("C06","HTML escaping covers every dynamic value and no template text",
  "With EscapeHTML on, every string produced from a variable, field, call or other dynamic expression is rendered as its HTML-escaped form, whatever its static type, while the template's own literal text is rendered byte for byte. With EscapeHTML off both are rendered unchanged, and the setting also governs dynamically evaluated templates.",
  ["inputs","programs","configurations"],"every string value, every way a value reaches the output (typed, interface, JSON-rendered, function result, evaluated template), both option values",
  "one test renders one escaped variable; an unescaped path is a specific appender or type nobody rendered with the option on",
  ["est/buffer.go","est/stmt/select.go","stmt.go","compile.go","evaluate.go","planner.go"],
  [("escaping append","est/buffer.go AppendString"),("literal text appender","stmt.go compileAppend")])
p("C07","Integers are rendered as their exact decimal form",
  "Rendering an integer value writes its canonical base-10 representation, the same digits strconv produces, for every 64-bit integer including the most negative one. It reports exactly the number of bytes it wrote and never writes outside the destination slice.",
  ["inputs"],"all 2^64 integer values and every destination with enough room",
  "the unit test formats a few dozen values; digit-pair tables and fast paths go wrong at particular digit counts or remainders",
  ["utils/itoa.go","est/buffer.go"],
  [("digit generation","utils/itoa.go formatBits/AppendInt")])
p("C08","A block runs all its statements once each, in source order",
  "Executing a block executes each of its statements exactly once and in source order, for every number of statements, so the output of a template is the concatenation of the outputs of its parts. This holds for the whole template and for every nested body.",
  ["programs"],"blocks of every length and every nesting",
  "the code has a separate specialised executor for every small statement count plus a general one; tests exercise only a few counts",
  ["est/stmt/block.go","block.go"],
  [("specialised executors","est/stmt/block.go stmtN.compute / newStmtN / NewBlock")])
p("C09","Conditionals run the first branch whose condition holds, and only it",
  "An #if/#elseif/#else chain evaluates its conditions in order, executes the body of the first one that holds and nothing else, executes the #else body when none holds, and renders nothing when there is no #else. A condition that is not boolean holds exactly when the value is non-empty: a non-zero number, a non-empty string or slice, a non-nil pointer (a pointer to a number, string or bool is judged by what it points to, and does not hold when it is nil).",
  ["inputs","programs"],"chains of any length, every condition type and value, any nesting",
  "tests use chains of at most a few branches with literal conditions; a mis-linked else branch or a wrong truth test needs a specific chain position or value",
  ["est/stmt/if.go","parser/if.go","parser/builder.go","ast/stmt/ifstmt.go","stmt.go"],
  [("branch selection","est/stmt/if.go If.compute"),("truth of values","est/stmt/if.go conditionOperand"),("chain construction","ast/stmt/ifstmt.go AddCondition")])
p("C10","Loops visit every element once, in order, with the right item",
  "#foreach executes its body exactly once per element, in index order, with the item variable equal to that element, for every slice (including empty ones) of every element kind and however the slice is reached. #for runs init once, then body and post while the condition holds, testing the condition before every pass; compound steps (++ -- += -= *= /=) update the variable as in Go.",
  ["inputs","programs"],"slices of any length and element type, any loop bounds and steps, any nesting of loops",
  "tests loop over a few short slices; off-by-one, stale item and wrong-element errors depend on length, element kind and how the slice is reached",
  ["est/stmt/foreach.go","est/stmt/for.go","parser/range.go","parser/token.go","range.go","stmt.go"],
  [("iteration","est/stmt/foreach.go ForEach.compute*"),("loop","est/stmt/for.go For.compute"),("range literal","range.go compileRange")])
p("C11","A selector denotes the field its path names, with nil giving zero",
  "$a.B.C denotes the value Go's a.B.C denotes, through values, pointers and embedded structs at any depth, and always reads the state the template is executed with. If some pointer on the path is nil the selector yields the zero value of its type instead of panicking, and reading never changes the data.",
  ["inputs","programs"],"all struct shapes and nesting depths, all nil patterns along the path, all data values",
  "offset and indirection bookkeeping is a function of the type's shape; tests cover a few shapes, so an offset error needs a particular mix of embedding, pointers and position",
  ["est/op/upstream.go","est/op/selector.go","est/op/operand.go","planner.go","est/stmt/select.go"],
  [("path evaluation","est/op/upstream.go Upstream"),("direct offset access","est/op/operand.go Operand.pointer"),("selector construction","planner.go createSelectors/selector")])
p("C12","Text outside directives is rendered verbatim",
  "Every byte of a template that is not part of a directive, a resolvable variable reference or a comment is rendered unchanged and in place, including a reference to an undefined variable, a lone $ or #, escaped #[[...]]# blocks (without the markers), multi-byte characters and white space around directives. A ## comment removes only itself up to and including its line end.",
  ["inputs","programs"],"all byte strings as template text, in any position relative to directives",
  "templates are arbitrary text; tests contain a few dozen, so lost or duplicated text needs an untested juxtaposition of text and special characters",
  ["parser/parser.go","parser/matcher/velty.go","parser/matcher/whitespace.go","stmt.go","est/stmt/select.go"],
  [("scan for special characters","parser/parser.go Parse"),("literal append","stmt.go compileAppend")])
p("C13","Lexical matchers report exact lengths and never read out of bounds",
  "For every input and position, each hand-written token matcher reports exactly the length of its token as defined by the language (identifier: a letter followed by letters, digits, underscores; quoted string up to the first unescaped closing quote, or no match; argument up to the first top-level comma; line up to and including the newline; text up to and including the first special character). It never reports more bytes than remain, never reads outside the input and always terminates.",
  ["inputs"],"all byte sequences and all cursor positions inside them",
  "unit tests feed ten strings; boundary conditions at the end of input and escape handling need specific byte sequences",
  ["parser/matcher/identity.go","parser/matcher/string.go","parser/matcher/argument.go","parser/matcher/velty.go","parser/matcher/whitespace.go"],
  [("matchers","parser/matcher/*.go Match")])
p("C14","Function and method calls receive their own arguments, in order",
  "Calling a registered function, namespace function or method from a template calls exactly that function once per evaluation with the receiver (if any) and the argument values in source order, for every number of arguments, and the call denotes the first result. A non-nil error result is reported as an execution error and never silently dropped.",
  ["inputs","programs"],"all argument counts and values, all supported signatures, chained calls, repeated executions",
  "calls go through per-signature fast paths and per-arity code; tests call a few signatures with one or two arguments",
  ["est/op/func.go","est/op/upstream.go","planner.go"],
  [("signature fast paths","est/op/func.go discover"),("reflective call by arity","est/op/func.go Func.execute/callFunc"),("receiver substitution","est/op/upstream.go")])
p("C15","Built-in functions agree with their Go counterparts",
  "Each built-in template function (strings.*, strconv.*, math.*, slices.*, types.*, maps.*, json.Marshal, errors.*) returns what the Go function or operation of the same name returns for the same arguments, and the error-reporting ones fail exactly when the named assertion does not hold.",
  ["inputs"],"all argument values of each built-in function",
  "almost none of the built-ins are exercised by the existing tests, and swapped or mistaken delegations agree on many inputs",
  ["functions/strings.go","functions/strconv.go","functions/math.go","functions/slices.go","functions/types.go","functions/maps.go","functions/json.go","functions/errors.go"],
  [("delegation","functions/*.go")])
p("C16","#evaluate renders its text as a template against the current state",
  "#evaluate($text) renders the template held in the variable exactly as if that text had been compiled on its own with the current variables and their current values, appending to the same output at that point, and its own assignments do not leak into the enclosing template. The result is independent of whether, how often and by whom the same text was evaluated before, and of the cache size.",
  ["inputs","histories","configurations"],"all template texts and states, all evaluation histories, all cache sizes, nested evaluation",
  "the result must not depend on cache history; tests evaluate one or two texts from an empty cache",
  ["evaluate.go","cache.go","planner.go","est/type.go"],
  [("cache","cache.go expression/put"),("state copy","evaluate.go newState"),("scope snapshot","planner.go New, est/type.go Snapshot")])
p("C17","A pooled or reused state starts clean and has one owner",
  "A state handed out by the pool is not handed out again until it is put back, whatever the number of callers and the order of calls, and it starts with an empty output and no errors. Resetting a state makes the next execution's output and errors independent of earlier executions with it.",
  ["histories","schedules"],"all sequences of taking, executing, resetting and returning states, any pool size",
  "the tests take and return a few states sequentially; sharing or residue shows only in particular histories",
  ["pool.go","est/state.go","est/buffer.go","compile.go"],
  [("ownership flag","est/state.go Take/Reset"),("pool","pool.go State/Put")])
p("C18","The first error is reported and PanicOnError stops execution there",
  "If any function called during an execution fails, executing returns an error wrapping the first failure, and returns no error when nothing failed. With PanicOnError the execution stops at the first failure, returns that failure as an ordinary error, renders nothing after it, and never lets that panic escape, while panics whose value is not an error are not swallowed.",
  ["inputs","programs","histories"],"all templates and failure positions, including failures inside nested blocks and evaluated templates, both option values",
  "one test raises one error at top level; reporting from nested scopes and repeated failures needs specific programs",
  ["est/execution.go","est/state.go","est/op/func.go","evaluate.go"],
  [("collection","est/state.go AddError"),("recovery","est/execution.go Exec")])
p("C19","Executions are isolated: the plan is read-only, states do not interfere",
  "A compiled plan gives, for each state, the output it would give for that state alone: executing it with one state never changes the plan, its literals, shared default values or any other state, so the same plan can be used with any number of states in any order and repeatedly. Executing twice from equal states gives equal output.",
  ["histories","schedules"],"all interleavings of executions of one plan over any number of states, all data",
  "tests execute each plan once or with one state; a write into shared plan data is visible only in the second execution or in another state",
  ["est/op/upstream.go","est/op/operand.go","est/utils.go","est/stmt","est/expr","compile.go"],
  [("values live in per-state memory","compile.go stateProvider, est/op/operand.go pointer"),("plan objects written only while compiling","est/**")])
p("C20","Variables are registered once, do not overlap, and SetValue reaches them",
  "After any sequence of DefineVariable and EmbedVariable calls every variable name resolves to its own storage of its own type, distinct from every other variable's, and a value stored with SetValue or EmbedValue is the value the template reads under that name, in this and in derived scopes. Defining or adding variables later does not change what earlier names resolve to.",
  ["histories","inputs","configurations"],"all definition sequences, names, tags, prefixes and types, all values",
  "index/offset bookkeeping depends on the whole definition history; tests define a few variables",
  ["est/type.go","est/state.go","est/op/selectors.go","planner.go","tag.go"],
  [("field index","est/type.go addField/ValueAccessor/Snapshot"),("selector index","est/op/selectors.go Append/ById/Snapshot")])
p("C21","Field tags rename, prefix and hide exactly as declared",
  "A velty tag is read as documented: a leading bare name or name=/names= (separated by |) gives the names under which a field can be referenced, prefix= prefixes the names of an embedded struct's fields, and - hides the field; spaces around items are ignored and unknown items have no effect. A field is reachable by its declared names and only by them, and an untagged field by its Go name.",
  ["inputs","configurations"],"all tag strings and struct shapes",
  "tests use three or four tag spellings; list splitting, trimming and ordering errors need others",
  ["tag.go","planner.go","init.go"],
  [("tag parsing","tag.go Parse"),("name registration","planner.go addChildrenSelectors")])
p("C22","Index and key access reach the addressed element",
  "$s[i] denotes the i-th element of the slice, for every in-range index, and an out-of-range index is rejected instead of reading other memory; $m[k] denotes the value stored under k or the zero value when absent. Keys of a wider or pointer form (int64, int32, int16, their pointers, *string, []byte) address the same entry as the plain int or string with the same value.",
  ["inputs"],"all slices, maps, indices and keys",
  "tests index small collections with in-range constants; boundary and negative indices and key forms are not sampled",
  ["est/op/slice.go","est/op/map.go","est/op/iface.go","keys/normalize.go"],
  [("bounds test","est/op/slice.go Slice.Exec"),("key normalisation","keys/normalize.go Normalize"),("map lookup","est/op/map.go Map.Exec")])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
