import json
P=[]
def p(id,title,st,over,qt,why,files,mech,obs=None,state=None,hook=None):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=obs or [],hook_needed=hook)))
GO=["templates/goshared","templates/go","templates/shared"]
p("C01","A rule that does not fit its field's type stops code generation",
  "Running the plugin on a message whose field carries rules of a kind that does not match the field's type (scalar kind, enum, repeated, map, embedded message, wrapper, Any, Duration or Timestamp), at any nesting through repeated items, map keys and map values, fails instead of generating code. When the kind matches (including a scalar rule on the matching google.protobuf wrapper type), no type error is raised. Fields of a message with validation disabled are not checked.",
  ["configurations","inputs"],"every (field type, rule kind) pair, at every nesting of items/keys/values, for every message descriptor",
  "No test feeds the plugin an ill-typed rule: the harness only compiles valid protos, so the rejecting half of the checker is never run.",
  ["module/checker.go"],[("CheckRules, CheckFieldRules, MustType, CheckMessage, CheckRepeated, CheckMap","module/checker.go")],["exit status and stderr of protoc-gen-validate"])
p("C02","Contradictory numeric, duration, timestamp rules rejected, others accepted",
  "For numeric, Duration and Timestamp fields the plugin refuses a rule set in which `const` is combined with any other value rule, `in` with `not_in`, `in` with a range bound, `lt` with `lte`, `gt` with `gte`, or an upper bound equals a lower bound; Duration and Timestamp constants must be representable, and for Timestamp, now-relative rules or `within` with absolute bounds, both now-rules together, or a non-positive `within` are refused as well. Every other well-typed rule set of these kinds is accepted.",
  ["configurations"],"all presence combinations and all constant values of the numeric, duration and timestamp rule messages",
  "Only a few dozen consistent rule sets occur in the test protos and no inconsistent one; presence combinations and equal/unequal constants form an unbounded space.",
  ["module/checker.go"],[("CheckInt32..CheckSFixed64, CheckFloat, CheckDouble, checkNums, checkIns, CheckDuration, CheckTimestamp, checkDur, checkTS","module/checker.go")],["exit status of protoc-gen-validate"])
p("C03","Contradictory string, bytes, enum and container rules rejected, others accepted",
  "The plugin refuses string or bytes rules where `len` is combined with `min_len`/`max_len` (likewise `len_bytes` with `min_bytes`/`max_bytes`), a minimum exceeds its maximum, a `prefix`/`suffix`/`contains` is longer than the maximum length, `max_len` exceeds `max_bytes`, `in` meets `not_in` or `pattern`, a pattern is not a valid RE2 expression, or a `pattern` meets a well-known regex; enum `defined_only` with an undefined `in` value; item or pair counts with minimum above maximum; `unique` on messages and `no_sparse` on non-message map values; `skip` with a scalar rule. Every other well-typed rule set of these kinds is accepted, whatever the size of its constants.",
  ["configurations"],"all presence combinations and all constant values (full uint64 range, arbitrary strings) of these rule messages",
  "The harness protos contain only accepted rule sets with small constants, so neither a missing rejection nor a wrong one can show up.",
  ["module/checker.go"],[("CheckString, CheckBytes, CheckEnum, CheckRepeated, CheckMap, CheckMessage, checkLen, checkMinMax, checkPattern, checkWellKnownRegex","module/checker.go")],["exit status of protoc-gen-validate"])
p("C04","Go: numeric fields are accepted exactly when const, range and in-lists hold",
  "For a numeric field of any of the twelve kinds, generated Go validation reports the field exactly when its value breaks a rule: differs from `const`, lies outside the interval given by lt/lte/gt/gte (or, when the lower bound is above the upper bound, inside the excluded gap), is missing from `in`, or is present in `not_in`; bounds are inclusive or exclusive as named (a NaN, which has no order, is judged by const and lists only). With `ignore_empty` a zero value is never reported.",
  ["inputs","configurations"],"every value of the field's type and every accepted combination of numeric rules, plain, optional, in oneofs, repeated items, map keys/values",
  "The harness checks one to three hand-picked values for a handful of rule combinations per numeric kind.",
  ["templates/goshared/num.go","templates/goshared/ltgt.go","templates/goshared/const.go","templates/goshared/in.go","templates/goshared/msg.go","templates/goshared/register.go"],
  [("const/ltgt/in templates, InLookup/NotInLookup tables, literal rendering","templates/goshared")],["return value of Validate()/ValidateAll()"])
p("C05","Go: string length, affix, containment, list and pattern rules are exact",
  "Generated Go validation reports a string field exactly when one of its rules is broken: const, in, not_in, character-count rules (counted in Unicode code points) and byte-count rules with inclusive bounds, prefix, suffix, contains, not_contains, or an RE2 pattern (unanchored search). With `ignore_empty` the empty string is never reported.",
  ["inputs","configurations"],"every string (any length, any bytes) and every accepted combination of these rules",
  "The harness samples a few short strings per rule and hardly combines rules; boundary lengths, multi-byte text and rule combinations are unbounded.",
  ["templates/goshared/string.go","templates/goshared/const.go","templates/goshared/in.go","templates/goshared/msg.go"],
  [("strTpl; Pattern/InLookup variables","templates/goshared/string.go, templates/goshared/msg.go")],["return value of Validate()/ValidateAll()"])
p("C06","Go: well-known string formats accept exactly their documented language",
  "A string field marked hostname is accepted exactly when it is at most 253 bytes and, after dropping one optional trailing dot, splits at dots into labels of 1 to 63 ASCII letters, digits or hyphens that neither begin nor end with a hyphen; email requires a parseable RFC 5322 address of at most 254 bytes with a local part of at most 64 bytes and a valid hostname; uuid is 8-4-4-4-12 hexadecimal digits. ip, ipv4, ipv6 and address accept exactly IP (v4, v6, or hostname-or-IP) texts, uri an absolute and uri_ref any URI, and the HTTP header name/value rules accept RFC 7230 header names (optionally starting with a colon) and values without control characters, or with strict=false anything free of NUL, CR and LF.",
  ["inputs"],"every string","Formats are languages over unbounded strings; the tests try one to five members and non-members of each.",
  ["templates/goshared/known.go","templates/goshared/string.go","templates/go/file.go","templates/shared/well_known.go","module/checker.go"],
  [("_validateHostname, _validateEmail, _validateUuid, uuidPattern","templates/goshared/known.go, templates/go/file.go"),("regex_map, checkWellKnownRegex","module/checker.go")],["return value of Validate()/ValidateAll()"])
p("C07","Go: bytes fields are accepted exactly when every bytes rule holds",
  "Generated Go validation reports a bytes field exactly when one of its rules is broken: const, in, not_in, len/min_len/max_len with inclusive bounds, prefix, suffix, contains, an RE2 pattern, or ip (4 or 16 bytes), ipv4 (4 bytes or an IPv4-mapped 16) and ipv6 (16 bytes, not IPv4-mapped). With `ignore_empty` an empty value is never reported.",
  ["inputs","configurations"],"every byte string and every accepted combination of bytes rules","A few values per rule are tested; byte values, lengths and rule combinations are unbounded.",
  ["templates/goshared/bytes.go","templates/goshared/msg.go","templates/goshared/register.go"],[("bytesTpl, byteStr, lit","templates/goshared/bytes.go, templates/goshared/register.go")],["return value of Validate()/ValidateAll()"])
p("C08","Go: bool and enum rules hold for every possible enum number",
  "Generated Go validation reports a bool or enum field exactly when the value differs from `const`, is not in `in`, is in `not_in`, or (`defined_only`) is not the number of a declared enum value; any int32, declared or not, is judged correctly, also for enums nested in messages, aliased, or imported from another package, and in repeated and map values.",
  ["inputs","configurations"],"every int32 enum number and every rule combination","Tests use two or three values of small enums.",
  ["templates/goshared/enum.go","templates/goshared/const.go","templates/goshared/in.go","templates/goshared/register.go"],[("enumTpl, inType, externalEnums","templates/goshared")],["return value of Validate()/ValidateAll()"])
p("C09","Go: repeated fields: counts, uniqueness and every item are checked",
  "Generated Go validation reports a repeated field when its item count lies outside min_items..max_items (inclusive), reports with `unique` every item equal to an earlier item, and applies the `items` rules, or the item message's own validation unless skipped, to each and every item. With `ignore_empty` an empty list is never reported; nothing else is reported.",
  ["inputs","configurations"],"lists of every length and content","Loops over unbounded lists; tests use lists of at most three items.",
  ["templates/goshared/repeated.go","templates/shared/context.go"],[("repTpl, RuleContext.Elem","templates/goshared/repeated.go, templates/shared/context.go")],["return value of Validate()/ValidateAll()"])
p("C10","Go: map fields: pair counts, sparse values, and every key and value are checked",
  "Generated Go validation reports a map field when its pair count lies outside min_pairs..max_pairs (inclusive), reports with `no_sparse` every nil message value, applies the `keys` rules to every key and the `values` rules, or the value message's own validation unless skipped, to every value, whatever the iteration order. With `ignore_empty` an empty map is never reported; nothing else is reported.",
  ["inputs","configurations","schedules"],"maps of every size and content and every iteration order","Map iteration order is random and sizes unbounded; the map tests of the harness are excluded or use one or two pairs.",
  ["templates/goshared/map.go","templates/shared/context.go"],[("mapTpl, RuleContext.Key/Elem","templates/goshared/map.go, templates/shared/context.go")],["return value of Validate()/ValidateAll()"])
p("C11","Go: embedded messages, required, skip, disabled and ignored behave as documented",
  "A set embedded message field is reported exactly when the embedded message fails its own validation, unless the field is marked skip; an unset one is reported exactly when it is marked required. A message marked disabled validates successfully whatever it contains, a message marked ignored gets no validation methods and is accepted wherever it is embedded, and a nil message is valid.",
  ["inputs","configurations"],"every message value and nesting depth, every combination of required/skip/disabled/ignored","Nesting and contents are unbounded; tests use one level and two values.",
  ["templates/go/message.go","templates/go/required.go","templates/goshared/msg.go","templates/shared/disabled.go"],[("messageTpl, requiredTpl, msgTpl, Disabled, Ignored","templates/go, templates/goshared, templates/shared")],["return value of Validate()/ValidateAll()"])
p("C12","Go: oneofs: only the set member is judged, required oneofs must be set",
  "Validation of a oneof applies exactly the rules of the member that is set, to its value, and no rules of other members; if no member is set it is reported exactly when the oneof is marked required. Optional proto3 fields are judged by the same rules as plain ones.",
  ["inputs","configurations"],"every oneof case and member value","One oneof message is tested with a few values.",
  ["templates/goshared/msg.go","templates/shared/disabled.go"],[("oneof switch in msgTpl, RequiredOneOf","templates/goshared/msg.go, templates/shared/disabled.go")],["return value of Validate()/ValidateAll()"])
p("C13","Go: wrapper fields apply scalar rules to the wrapped value, nil unless required",
  "For a google.protobuf wrapper field (numeric, bool, string, bytes) generated Go validation applies the scalar rules to the wrapped value when the wrapper is set, also for repeated items and map values; an unset wrapper is reported exactly when the field's message rules mark it required.",
  ["inputs","configurations"],"every wrapped value, set or unset, every scalar rule combination","Tests use a couple of values for one rule per wrapper.",
  ["templates/goshared/wrapper.go","templates/shared/context.go","templates/goshared/register.go"],[("wrapperTpl, Unwrap, unwrap","templates/goshared, templates/shared")],["return value of Validate()/ValidateAll()"])
p("C14","Go: Any, Duration and Timestamp rules are exact",
  "An Any, Duration or Timestamp field is reported exactly when it is required but unset, or is set and breaks a rule: Any type URL in/not_in; Duration const, lt/lte/gt/gte (reversed when the lower bound is above the upper), in, not_in; Timestamp const, the same bounds, lt_now/gt_now, and `within` of the time read during validation. A Duration or Timestamp outside the valid protobuf range is reported whenever it carries a value rule.",
  ["inputs","configurations"],"every seconds/nanos pair, every clock reading and every accepted rule combination","Tests sample a few instants; sub-second boundaries, negative durations, invalid nanos and clock readings are not covered.",
  ["templates/go/duration.go","templates/go/timestamp.go","templates/goshared/duration.go","templates/goshared/timestamp.go","templates/goshared/any.go","templates/goshared/register.go"],
  [("durationcmp/timestampcmp templates, durLit, tsLit, durGt, tsGt","templates/goshared")],["return value of Validate()/ValidateAll()"])
p("C15","Go: Validate and ValidateAll agree; ValidateAll reports each violation once",
  "For every message, Validate returns nil exactly when ValidateAll returns nil. Otherwise ValidateAll returns a multi-error listing one error for each broken constraint (a range or length interval counts as one constraint), and Validate returns the same violation ValidateAll lists first (same field, key flag and reason); for map fields this holds for equal iteration orders.",
  ["inputs","configurations"],"every message value and rule set","The harness compares only pass/fail and, for a few cases, an error count.",
  ["templates/goshared/msg.go","templates/go/message.go"],[("validate(all bool), MultiError","templates/goshared/msg.go")],["errors returned by Validate()/ValidateAll()"])
p("C16","Go: every error names the field, index or key that broke the rule, and the cause",
  "Each error produced by generated Go validation names the offending field by its Go name, with the list index or map key in brackets when the fault is in an item, key or value; Key() is true exactly for faults of map keys; Reason() is non-empty; Cause() is the embedded message's error when and only when the fault lies in an embedded message (or the parse error of a format). The error text contains the message name, that field, the reason and the cause, and a multi-error's text joins those of its errors, which AllErrors returns unchanged.",
  ["inputs","configurations"],"every violation of every message value","Tests look at pass/fail, never at the field, index, key flag, cause or text of an error.",
  ["templates/goshared/register.go","templates/goshared/msg.go","templates/shared/context.go"],[("errIdxCause, ValidationError, MultiError","templates/goshared")],["Field()/Reason()/Key()/Cause()/Error()/AllErrors()"])
p("C17","Go: validation never panics and always returns",
  "Calling Validate or ValidateAll on any message value, including nil messages, nil embedded messages, nil list elements and map values, unset oneofs and strings with arbitrary bytes, returns normally.",
  ["inputs","configurations"],"every message value","A panic needs a particular value shape; tests try a few nils.",
  ["templates/goshared","templates/go"],[("nil guards, loops, index expressions in the generated code","templates/goshared, templates/go")],["absence of panics from Validate()/ValidateAll()"])
p("C18","Accepted rule sets always generate Go code that compiles with faithful constants",
  "Whenever the plugin accepts a proto file, the Go code it generates compiles together with the protoc-gen-go output, and every rule constant (numbers, strings and bytes of any content, durations, timestamps, patterns) denotes in the generated code exactly the value written in the proto.",
  ["configurations","programs"],"all accepted rule sets and constants","Only the rule sets of the test protos are ever generated; a constant that renders badly or a rule position without its table would not show.",
  ["templates/goshared/register.go","templates/goshared/msg.go","templates/shared/well_known.go","templates/go/file.go"],[("lit, byteStr, durLit, tsLit, inKey, inType, Needs, FileNeeds","templates/goshared/register.go, templates/shared/well_known.go")],["go build of generated packages"])
p("C19","C++: generated validation accepts exactly the same scalar values as documented",
  "The C++ Validate function generated for numeric, bool, enum, string and bytes fields returns false exactly when one of the field's rules (those C++ supports: const, ranges, in/not_in, defined_only, lengths in code points and bytes, affixes, containment, pattern, ip, hostname, address, uuid, ignore_empty; not email, uri, uri_ref, HTTP header patterns, ip rules of bytes, proto3 optional fields) is broken. When it returns false it writes a message naming the field.",
  ["inputs","configurations"],"every field value and accepted rule combination supported in C++","The C++ harness tries the same few values as the Go one.",
  ["templates/cc"],[("const, in, ltgt, num, string, bytes, enum templates","templates/cc")],["return value of Validate(const M&, std::string*)"])
p("C20","C++: generated validation of messages, lists, maps, oneofs, WKTs is exact",
  "The C++ Validate function returns false exactly when a constraint is broken for embedded messages (recursive validation, required, skip), repeated fields (counts, unique, items), maps (counts, keys, values), required oneofs and the set member's rules, wrapper fields, Any and Duration rules; disabled messages are always valid. Left out are the rules C++ does not implement: timestamp comparisons, no_sparse, in/not_in lists of keys, values and most items, wrapper, Any, Duration and Timestamp rules of items and values, unique messages and enums.",
  ["inputs","configurations"],"every message value and accepted rule combination supported in C++","The C++ harness uses tiny lists and one level of nesting.",
  ["templates/cc"],[("message, repeated, map, oneof, wrapper, any, duration templates","templates/cc")],["return value of Validate(const M&, std::string*)"])
p("C21","C++ runtime helpers compute their documented predicates",
  "The C++ runtime's prefix, suffix, containment, IP and hostname predicates and code-point count return the mathematically defined result for every string, including empty ones and ones with embedded NULs; validating a message dispatches to the validator registered for its type and accepts a type without one.",
  ["inputs"],"every pair of strings","Called by the tests with a few short strings only.",
  ["validate/validate.h"],[("IsPrefix, IsSuffix, Contains, IsIpv4, IsIpv6, IsHostname, Utf8Len, Validator::CheckMessage","validate/validate.h")],["return values of pgv:: helpers"])
p("C22","Java runtime: rule helpers throw exactly when the rule is broken",
  "The Java runtime's helpers (comparison and range checks, constants, in/not_in lists, list and map sizes and uniqueness, required, string and bytes predicates, timestamps) throw a validation exception exactly when the given value breaks the given rule, and run the given validator on every element of a list or map.",
  ["inputs"],"every value and rule constant","The Java code is not run by the tests here.",
  ["java/pgv-java-stub/src/main/java/io/envoyproxy/pgv"],[("ComparativeValidation, CollectiveValidation, ConstantValidation, EnumValidation, MapValidation, RepeatedValidation, RequiredValidation, StringValidation, BytesValidation, TimestampValidation","java/pgv-java-stub")],["ValidationException"])
p("C23","Java: generated validators express the documented rules",
  "The Java validator classes the plugin generates check each field against exactly its rules, with the rule's constants, and validate nested messages, list items and map entries.",
  ["configurations","inputs"],"every rule set and value","Java output is never compiled or run by the tests here.",
  ["templates/java"],[("java templates","templates/java")],["generated Java source"])
p("C24","Python: runtime-built validators accept exactly the valid messages",
  "The Python validate function accepts a message exactly when every rule of every field holds, with the same meaning of the rules as in the other languages.",
  ["configurations","inputs"],"every rule set and value","Python is only parse-checked by the tests here.",
  ["python/protoc_gen_validate/validator.py"],[("validate, template strings","python/protoc_gen_validate/validator.py")],["ValidationFailed"])
p("C25","One output per proto file, at the documented path, identical on every run",
  "For each input file the plugin emits, for Go one file next to the protoc-gen-go output with .validate.go as its extension, for C++ one header and one source named after the proto file, and for Java per its outer-class or multiple-files options; the contents depend only on the input, so repeated runs are byte-identical. A missing or unknown `lang` is refused.",
  ["configurations","histories"],"every set of input files and plugin parameters","Tests run the plugin once per parameter set of the Makefile.",
  ["module/validate.go","templates/pkg.go","templates/cc/register.go","templates/java/register.go"],[("Execute, FilePathFor, CcFilePath, JavaFilePath","module/validate.go, templates/pkg.go")],["CodeGeneratorResponse"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x,ensure_ascii=False)+"\n" for x in P))
for x in P: assert len(x['title'])<=80,(x['id'],len(x['title']))
