#!/usr/bin/env python3
"""Writes known_findings.json: what was repaired in /repo and what is known and not repaired."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIX = [ # subject of the commit, property, what failed
 ("fix: evaluate remaining operands of nested && and || in jump conditions", "C03", "if (a || (b && c)) with constant parts skipped evaluating operands"),
 ("fix: throw when NaN is converted to integer", "C01", "bitwise operators accepted NaN operands"),
 ("fix: reject unrepresentable floats when folding conversions to integer", "C02", "folded bitwise operators on huge floats gave garbage instead of failing"),
 ("fix: keep side effects of literals used as conditions", "C02", "if [f()] {...} did not call f"),
 ("fix: restore outer catch when break or continue leaves a try section", "C04", "after break out of a try section inside another try, exceptions went to the wrong catch"),
 ("fix: don't overwrite class prototype when calling a constructor with closures", "C07", "constructors with closures lost their prototype"),
 ("fix: keep 0.0 and -0.0 apart in the compiler's table of constants", "C02", "-0.0 became 0.0 when both occurred in one program"),
 ("fix: don't build literals in the variable they read while being assigned to it", "C08", "x = [1, x] read the half-built array"),
 ("fix: evaluate default arguments and class properties of unused functions and classes", "C02", "side effects of default arguments of unused functions were dropped"),
 ("fix: keep code reachable through conditional break or continue in loops and switches", "C03", "code after a loop that can only be left through break was removed"),
 ("fix: make run-time negation of 0.0 agree with constant folding", "C01", "-x of 0.0 gave 0.0 at run time, -0.0 when folded"),
 ("fix: don't assert when a constructor called from native code throws", "C07", "K.apply(void, args) with a throwing constructor hit an assertion"),
 ("fix: don't assert when an else branch has already been optimized away", "C13", "compiler assertion on an if with an optimized-away else branch"),
 ("fix: keep side effects of interpolated strings used as operands of typeof", "C02", 'typeof "\\(f())" did not call f'),
 ("fix: don't change the target variable when negation throws", "C08", "v = -f() modified v when negation threw"),
 ("fix: don't allocate closure variables for optimized-out scopes", "C08", "a closure variable in a removed branch corrupted the closure layout (compiler assertion)"),
 ("fix: pick the right default values for arguments beyond the register limit", "C05", "functions with more than 31 parameters took wrong defaults"),
 ("fix: enumerate inherited properties hidden only by deleted ones", "C07", "deep() omitted inherited properties whose name was deleted from a nearer object"),
 ("fix: don't truncate out-of-range indexes passed to array cas", 'C09', 'array.cas with an index beyond 32 bits changed another element'),
 ('fix: stop exclusive string scan at characters wider than the pattern', 'C10', 'strip and exclusive scan skipped characters wider than the searched set'),
 ('fix: make negative rfind position relative to the end of the string', 'C10', 'negative rfind position was relative to the wrong end'),
 ('fix: report ASCII slices of wider strings as ASCII', 'C10', 'ascii was false for ASCII slices of wider strings'),
 ('fix: compare whole code points when wide strings differ before the aligned part', 'C10', 'long wide strings differing before the 8-byte aligned part compared wrongly and read misaligned'),
 ('fix: reject pack formats whose total size overflows', 'C11', 'pack formats whose total size overflows 32 bits wrote past the buffer'),
 ("fix: don't crash when comparing empty buffers", 'C01', 'comparing buffers that have no storage dereferenced a null pointer'),
 ('fix: insert a buffer into itself or past the end without losing bytes', 'C11', 'inserting a buffer into itself or past its end lost bytes or read freed storage'),
 ('fix: accept empty buffers and strings where their bytes are copied or printed', 'C11', 'copying, packing or printing an empty buffer or string into an empty buffer threw or touched a null pointer'),
 ('fix: throw instead of overflowing the native stack when printing deeply nested values', 'C16', 'converting an array or object nested tens of thousands of levels deep to a string overflowed the native stack'),
 ('fix: release the reference kept by file seek and resize when they fail', 'C16', 'a failing file seek or resize left a dangling entry on the list of local references'),
 ('fix: module get checks that it is called on a module', 'C16', 'module.prototype.get applied to a value that is not a module read arbitrary memory'),
 ("fix: don't copy from a null pointer when converting an empty string", 'C16', 'converting an empty string to UTF-8 passed a null pointer to memcpy'),
 ('fix: report failure to allocate argument names in the compiler', 'C17', 'a failed allocation of a parameter name aborted the compiler'),
 ('fix: report failure to allocate a jump entry in the compiler', 'C17', 'a failed allocation of a jump entry aborted the compiler'),
 ("fix: do not ignore allocation failure when resolving a module's globals", 'C17', 'a failed allocation while resolving a global silently produced wrong code'),
 ('fix: raise an exception when compiling a regular expression runs out of memory', 'C17', 'a failed allocation while compiling a regular expression failed without an exception'),
 ('fix: do not leak a mark group when marking runs out of memory', 'C17', 'a failed allocation during marking leaked memory'),
 ('fix: clear pending exception before looking for modules relative to argv[0]', 'C17', 'a failed allocation while setting up the module path left a stale exception'),
 ('fix: do not assert unary depth in the parser after an error', 'C17', 'a failed allocation in a parenthesised async expression aborted the parser'),
 ('fix: print all digits of code points above 0xFFFFF in quoted strings', 'C12', 'a quoted code point above 0xFFFFF was printed without its first digit'),
 ('fix: do not drop digits of the integral part when printing large floats', 'C12', 'floats of 1e31 and above were printed as a wrong, smaller number'),
 ('fix: escape strings inside arrays when converting an array to a string', 'C12', 'stringify of an array did not escape quotes and special characters in its strings'),
 ('fix: limit the length of member and else-if chains, which overflowed the stack in the compiler', 'C13', 'a chain of 10000 member accesses or calls, or 100000 else-ifs, overflowed the native stack'),
 ('fix: do not replace array storage with a smaller one when two threads grow an array at once', 'C19', 'two threads pushing to an array at once could replace its storage with a smaller one: elements were lost or the program hung'),
 ('fix: rehash an object key whose hash has not been stored yet by the thread adding it', 'C18', 'growing an object while another thread adds a property to it could file the property under a wrong hash, so it was lost'),
 ('fix: read array elements and object keys with acquire ordering, they may have just been created by another thread', 'C18', 'elements and keys were read without acquire ordering: a thread could see a value before its contents'),
 ('fix: share closure variables between threads with acquire/release ordering', 'C20', 'variables captured by closures were shared between threads without ordering'),
 ('fix: publish the state of a generator with release ordering, another thread may resume it', 'C20', 'a generator resumed by another thread could see its state before its contents'),
 ('fix: do not shrink a range of a regular expression class when adding a character inside it', 'C21', 'a character of a class added inside an existing range shrank the range'),
 ('fix: stop repeating a regular expression group which matches an empty string', 'C21', 'repeating a group which matches the empty string never ended'),
 ('fix: report regular expression groups which end at the end of the longest string', 'C21', 'a group ending at index 65535 was reported as not matched'),
 ('fix: reject truncated JSON arrays', 'C22', 'a truncated array was accepted'),
 ('fix: parse all JSON numbers and reject invalid JSON tokens instead of skipping them', 'C22', 'valid numbers were rejected and invalid tokens were skipped'),
 ('fix: decode and encode escape sequences in JSON strings', 'C22', 'escape sequences in strings were not decoded, and strings needing them were dumped as invalid JSON'),
 ('fix: do not dump infinity and not-a-number as invalid JSON', 'C22', 'infinity and not-a-number were dumped as invalid JSON'),
 ('fix: do not confuse modules with the same name in different directories', 'C23', 'a module was confused with another one of the same name in a different directory'),
 ('fix: do not run a module again when it is loaded by a path', 'C23', 'a module loaded by a path was run again'),
 ('fix: forget a module whose execution failed instead of leaving it half-initialized', 'C23', 'a module whose execution failed was later returned half-initialized'),
 ('fix: finish a range before the next element overflows', 'C24', 'a range whose next element overflows ran on from the other end of the integers'),
 ('fix: return a float from pow() in all cases', 'C25', 'pow() returned an integer for some arguments'),
 ('fix: do not overflow computing the width of a range of random integers', 'C25', 'random integers from the whole range of integers crashed the optimized interpreter with a division by zero'),
 ('fix: do not write a buffer again together with the string which follows it', 'C26', 'write(buffer, string) wrote the buffer a second time'),
 ('fix: read whole lines regardless of NUL and CR characters and of the reserved size', 'C26', 'read_line cut lines at NUL or CR characters or by the size given'),
 ('fix: retry growing a buffer which another thread has grown at the same time', 'C26', 'two threads growing one buffer: one waited for ever'),
 ("fix: keep a buffer's storage alive while a transfer into or out of it is blocked", 'C26', 'a buffer reallocated by another thread during a blocked read or write was used after being freed'),
 ('fix: raise an exception when receiving from a socket fails', 'C26', 'recv on a socket which failed returned no exception'),
 ('fix: read lines correctly when a multi-byte character is split between two reads', 'C26', 'a multi-byte character split between two reads of a line became garbage'),
 ('fix: do not lose data when reading and writing of a file alternate, forget errors of previous operations', 'C26', 'data lost when reads and writes of a file alternate; an error stuck to later operations'),
 ('fix: let garbage collection proceed while closing a file is blocked', 'C26', 'closing a file with unwritten data while a collection was requested blocked all threads'),
 ('fix: refuse the day after the last day of a month', 'C28', 'the 31st of April and similar dates were accepted'),
 ('fix: compute dates of timestamps before 1970', 'C28', 'negative timestamps gave seconds of -1 and wrong years'),
 ('fix: do not reap other children when a process object is destroyed', 'C29', 'destroying the object of a failed spawn, or of a process already waited for, reaped another child, whose wait() then threw'),
 ('fix: reap all children whose process objects have been destroyed', 'C29', 'dropped children remained zombies'),
 ('fix: do not write buffered output twice and leave no zombie when a program cannot be executed', 'C29', "a failed spawn wrote the parent's buffered output twice and left a zombie"),
 ('fix: redirect each stream of a spawned process to the file requested', 'C29', 'swapping stdout and stderr sent both to one of them'),
 ('fix: do not search for programs past the end of PATH', 'C29', 'programs were looked for in values of variables following PATH'),
 ('fix: return from waiting for a process when it is stopped', 'C29', 'wait() did not return for a stopped process'),
 ('fix: accept the documented flags when sending to and receiving from sockets', 'C30', 'recv, recvfrom, send and sendto rejected exactly the flags they document and accepted unknown ones'),
 ('fix: sending through a socket in pieces is a success', 'C30', 'sending through a non-blocking socket in several pieces failed an assertion'),
 ('fix: receive no bytes instead of failing when a non-blocking socket has no data', 'C30', 'receiving from a non-blocking socket without data threw instead of returning an empty buffer'),
 ('fix: provide the address of the remote host when accepting a connection', 'C30', 'accept() did not give the documented address of the remote host'),
 ('fix: abbreviate zeros in IPv6 addresses only once', 'C30', 'IPv6 addresses with two runs of zeros were printed with two :: abbreviations'),
 ('fix: classify a division operator at the end of the text', 'C13', "kos.lexer on a text which ends with '/' produced an operator token with op_none instead of op_div"),
 ('fix: report the line of a loop when its body ends with a statement without code', 'C31', "an exception thrown by the iterator of a for loop whose body ends with a statement which generates no code (if false) was reported at that statement's line"),
 ('fix: sort large ordered arrays in reasonable time and without stack overflow', 'C09', 'sorting an array of 60000 elements which were already in order took half a minute and then crashed with a stack overflow, because the pivot was the last element and every level of recursion used the machine stack'),
 ('fix: parse numbers which round up to the smallest normalized number or beyond the largest one', 'C12', 'float("2.2250738585072012e-308") was 0 and float("1.7976931348623159e308") was infinity, because rounding up to the smallest normalized number or beyond the largest one left a wrong exponent'),
]
KNOWN = [
 {"property": "C16", "key": "return CALL(fun { const x = DEEPA(100000); const y = DEEPA(100000); x == y; })",
  "what": "comparing two separate arrays nested 100000 levels deep overflows the native stack: core/kos_utils.c compare_array recurses without a limit and the comparison interface has no way to report an error"},
 {"property": "C24", "key": "const r = []; for const x in range(9223372036854775800, 9223372036854775807, 4) { r.push(x); if r.size >= 5 { break } }; return r",
  "what": "a for loop over range() with a constant step other than 1 runs on when the next element overflows; the existing tests limit the number of instructions the loop may have, which leaves no room for a check (the range() function itself is repaired)"},
 {"property": "C23", "key": "module.load of a path whose last name is already taken",
  "what": "module.load(\"./d2/m.kos\") returns the module loaded earlier from ./d1/m.kos, because a module loaded by its path is registered under its last name only"},
]
try:
    exec(open(os.path.join(V, "tools", "findings_more.py")).read())
except FileNotFoundError:
    pass
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h%x09%s"], stdout=subprocess.PIPE, check=True).stdout.decode()
h = dict((l.split("\t", 1)[1], l.split("\t", 1)[0]) for l in log.strip().split("\n"))
out = []
for subj, pid, what in FIX:
    c = h[subj]
    out.append({"property": pid, "status": "fixed", "commit": c, "what": what, "text": "fixed: property=%s %s %s" % (pid, c, what)})
seen = {s for s, _, _ in FIX}
for s in h:
    if s.startswith("fix:") and s not in seen: print("not recorded:", s)
for k in KNOWN: out.append(dict(k, status="known"))
with open(os.path.join(V, "known_findings.json"), "w") as f:
    json.dump(out, f, indent=1); f.write("\n")
