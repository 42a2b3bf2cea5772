#!/usr/bin/env python3
# Writes MANIFEST.json from the tables below.
import json,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T='contract-based deductive verification of the generated validators (weakest preconditions, loop invariants, z3/cvc5), replay of failed obligations'
N='Every obligation of every generated validator of the corpus is discharged for all message values, all list and map sizes and all iterations. The quantification over rule sets is by corpus, hence translation validation: each generated program is verified, not the generator. Trusted: the verifier (pgvc), its string theory axioms, the contracts assumed on the Go library and protobuf runtime, which are cross-checked by replaying thousands of concrete messages per run.'
checks={p:('translation_validation',N) for p in ['C%02d'%i for i in range(4,18)]}
checks['C18']=('translation_validation','Decided per accepted rule set: the generated file and the file protoc-gen-go writes are compiled together by the Go compiler, and every obligation of the generated validator is discharged against the constants read from the descriptor, so a constant that denotes another value fails a named obligation. The quantification over rule sets is by corpus. Trusted: as for C04-C17, and the Go compiler as decider of well-formedness.')
TP='contract-based deductive verification of the plugin checker (module/*.go): pre/postconditions per rule kind, loop invariants, callee contracts, z3/cvc5; failed obligations are shown on rule sets run through the real checker'
NP='The contracts of MustType, CheckFieldRules (one postcondition per rule kind and per contradiction, in both directions), CheckRules and Execute are discharged from the source of /repo/module for all field types, all rule messages and all constants, with no bound. Trusted: the verifier (pgvc), the contracts assumed on protoc-gen-star, protobuf-go and the Go library, the specification of contradictory rules; about 34,500 enumerated rule sets are run through the real checker on every run to cross-check them.'
for p in ['C01','C02','C03']: checks[p]=('proof',NP)
NO='The contracts of the functions that name outputs (CcFilePath, JavaFilePath, JavaMultiFilePath, FilePathFor, Template, the template factories) and of Execute (an output is added exactly for each file to generate, or message with java_multiple_files, at its path, whatever the order of the files) are discharged from the source, for all file names and options. The outer class name is used by contract and its body is bounded: about 330 names and options are run through the real plugin on every run and compared with where protoc itself writes and what it names. Trusted: the verifier, protoc-gen-star, text/template.'
checks['C25']=('proof',NO)
NC='Each generated C++ Validate function is lowered from the syntax tree clang 18 writes for it (types, overloads and conversions resolved), and its obligations (acceptance implies every constraint; a rejection names a field with a broken constraint; no exception, no index out of range) are discharged for all message values. The quantification over rule sets is by corpus, hence translation validation; rules C++ does not implement are left out. Trusted: clang as front end, the lowering (pgvc/ccfe), the contracts assumed on protoc accessors, the C++ library and RE2 (the contracts of validate.h are discharged by C21), cross-checked by compiling the validators and running tens of thousands of concrete messages per run.'
TC='contract-based deductive verification of the generated C++ validators (clang syntax trees, weakest preconditions, loop invariants, z3/cvc5), replay on the compiled validators'
for p in ['C19','C20']: checks[p]=('translation_validation',NC)
NH="The helpers IsPrefix, IsSuffix, Contains, NotContains, IsIpv4, IsIpv6, IsIp, IsHostname and Utf8Len, the Validator constructor and CheckMessage are lowered from clang's syntax tree of /repo/validate/validate.h; their postconditions are the mathematical definitions, in both directions, for every string (embedded NULs and invalid bytes included), without a bound. Loop invariants are found by Houdini over a template family and discharged; Utf8Len has a variant. CheckMessage is discharged over ghost histories of the registry with two message types. Trusted: clang as front end, the lowering and the string theory (pgvc), the contracts assumed on std::string, inet_pton, std::regex_token_iterator, UTF8FirstLetterNumBytes, std::function and std::unordered_map; about 26,000 calls are run on the compiled helpers, under ASan and UBSan, on every run."
TH='contract-based deductive verification of validate/validate.h (clang syntax trees, weakest preconditions, inferred and discharged loop invariants, z3/cvc5), replay on the compiled helpers'
checks['C21']=('proof',NH)
na={
'C22':'no deductive verifier for Java is installed, and the Java sources do not compile offline (protobuf-java, re2j and grpc jars are absent), so neither contracts nor replays can be run on the real code',
'C23':'as C22: the generated Java needs protobuf-java, which is not installed, and no deductive verifier for Java is available',
'C24':'the Python validator cannot run here (no python protobuf and jinja2 packages) and no deductive verifier for Python is installed',
}
na={k:v for k,v in na.items() if k not in checks}
m={'version':1,'setup_cmd':'bash tools/build.sh',
 'checks':[{'property':p,'quick_cmd':'bash tools/check.sh '+p,'thorough_cmd':'VERIF_TIER=thorough bash tools/check.sh '+p,'technique':TP if p in('C01','C02','C03','C25') else TC if p in('C19','C20') else TH if p=='C21' else T,'level':l,'level_note':n} for p,(l,n) in sorted(checks.items())],
 'not_applicable':[{'property':p,'reason':r} for p,r in sorted(na.items())],
 'notes':'See DESIGN.md. bin/pgvc check ID decides a property; bin/pgvc replay FILE re-runs a reported input.'}
json.dump(m,open(V+'/MANIFEST.json','w'),indent=1); open(V+'/MANIFEST.json','a').write('\n')
