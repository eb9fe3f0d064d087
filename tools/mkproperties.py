#!/usr/bin/env python3
# Writes /verif/properties.jsonl.  One tuple per property.
import json, os
RB = ["strtree/strtree.go","strtree/node.go","dltree/dltree.go","dltree/node.go",
      "uintX/strtree8/strtree.go","uintX/strtree8/node.go","uintX/domaintree8/dltree.go","uintX/domaintree8/node.go"]
RX = ["numtree/node32.go","numtree/node64.go","uintX/iptree8/node32.go","uintX/iptree8/node64.go","uintX/iptree8/node64s.go"]
IP = ["iptree/iptree.go","uintX/iptree8/iptree.go"]
DM = ["domain/name.go","domain/label.go"]
DT = ["domaintree/domaintree.go","uintX/domaintree8/domaintree.go"]
ET = ["etc/main.go","etc/file.go","etc/data.go","etc/template.go"]
SZ = " (and the 16/32/64-bit copies under uintX)"
P = []
def p(id,title,stmt,over,text,why,files,mech,observe,state=None):
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None,
                   **({'state':state} if state else {}))))

p("C01","Non-in-place updates never change a tree obtained earlier",
  "Insert, Delete and DeleteSubdomains in every tree of the library (string, label, number, IP and domain trees and their sized variants) never modify any tree that existed before the call: every earlier version keeps exactly the entries, order and values it had. Only the operations named InplaceInsert... and UpdateDescendants may change an existing tree.",
  ["inputs","histories"],"every tree reachable by any history of operations, every key and value, every later update",
  "tests compare a handful of old versions after a handful of updates; which shared node an update touches depends on the shape of the tree",
  RB+RX+IP+DT,[("path copying (fullCopy/colorCopy before any write)","strtree/node.go insert, del"),("copy of each node on the path","numtree/node32.go insert, del"),("copy()/copyBranch","domaintree/domaintree.go")],
  ["public tree API: contents of the receiver before and after"])
p("C02","Lookups and enumeration never write, so readers may run concurrently",
  "Get, Match, ExactMatch, FindNode, GetByNet, GetByIP, Enumerate, IsEmpty, Children and Dot in every tree, and every function of the domain package, write no memory that existed before the call: no tree node, no argument and no package variable. Any number of them may therefore run in parallel on the same tree without a data race, together with non-in-place updates of it.",
  ["schedules","inputs"],"every schedule of concurrent readers over every tree and key",
  "no test runs readers concurrently, and a race shows up only under a particular interleaving",
  RB+RX+IP+DT+DM,[("no store on the read path","get/match/exactMatch/enumerate/dot in every node file")],["public read API from several goroutines"])
p("C03","Insertion into ordered maps sets exactly one binding",
  "For the string-keyed and label-keyed trees and their sized variants, after Insert or InplaceInsert of a key with a value the tree holds exactly the bindings it held before, except that the key is now bound to that value; keys stay unique. This holds for every tree reachable by any sequence of operations, for any comparison function that is a total order, and an insert into a nil or empty tree gives a one-entry tree.",
  ["inputs","histories"],"every reachable tree, every key, value and comparison order",
  "the tests insert fixed sequences and compare Dot dumps; the rotation cases reached depend on tree shape",
  RB,[("top-down red-black insertion","strtree/node.go insert, inplaceInsert"),("rotations single/double","strtree/node.go")],["Tree.Insert / InplaceInsert followed by Get, Enumerate"])
p("C04","Ordered-map lookup finds a key exactly when it is present",
  "For the string-keyed and label-keyed trees and their sized variants, Get of a key returns the value last bound to that key and true when the key is present, and the zero value and false otherwise; a stored nil or zero value is still reported as present. Label trees treat keys that differ only in ASCII letter case, or in how the same bytes are escaped, as the same key, while the raw methods use the given bytes as they are.",
  ["inputs","histories"],"every reachable tree and every key",
  "tests look up a few keys in a few trees",
  RB,[("ordered descent","get in strtree/node.go, dltree/node.go, uintX"),("label canonicalisation before every keyed operation","dltree/dltree.go")],["Tree.Get"])
p("C05","Ordered-map deletion removes exactly the given key",
  "For the string-keyed and label-keyed trees and their sized variants, Delete of a present key returns a tree with exactly the other bindings unchanged, and true; Delete of an absent key returns a tree with exactly the same bindings (or nil for a nil tree), and false.",
  ["inputs","histories"],"every reachable tree, every key",
  "which rebalancing case runs depends on colours several levels deep; the tests cover fixed deletion sequences",
  RB,[("top-down red-black deletion","del in strtree/node.go, dltree/node.go, uintX")],["Tree.Delete followed by Get, Enumerate"])
p("C06","Ordered maps stay balanced after any history",
  "After any sequence of Insert, InplaceInsert and Delete, a string-keyed or label-keyed tree (or sized variant) of n entries has every path from root to leaf at most 2*log2(n+1) nodes long, so lookups stay logarithmic even for sorted or adversarial input. The shape shown by Dot is a valid red-black tree: black root, no red node with a red child, same number of black nodes on every path.",
  ["inputs","histories"],"every history of updates in any key order",
  "tests check fixed Dot dumps; a lost recolouring changes no lookup result",
  RB,[("colour flips and rotations","insert, inplaceInsert, del"),("black root","last lines of insert, inplaceInsert, del")],["Tree.Dot / lookup cost"])
p("C07","Ordered-map enumeration yields every entry once in ascending key order",
  "Enumerate (and RawEnumerate) of a string-keyed or label-keyed tree or sized variant sends every binding exactly once, in ascending order of keys (the tree's comparison order; for labels shorter first, then bytewise), and then closes the channel; an empty or nil tree gives a channel that closes at once. Label trees send the key in escaped human-readable form, RawEnumerate sends the stored bytes.",
  ["inputs","histories","schedules"],"every reachable tree and consumer schedule",
  "tests enumerate a few trees",
  RB,[("in-order recursion","enumerate, rawEnumerate"),("deferred close in the producer goroutine","Enumerate")],["Tree.Enumerate, Tree.RawEnumerate"])
p("C08","Radix insertion sets exactly one prefix binding",
  "For the 32-bit and 64-bit radix trees and those inside the sized IP trees, after Insert or InplaceInsert of (key, bits, value) the tree holds exactly the prefix bindings it held before except that the prefix formed by the first 'bits' bits of key is bound to value; bits below 0 count as 0 and bits above the key size as the key size. Bits of the key beyond 'bits' do not matter to any later lookup.",
  ["inputs","histories"],"every reachable tree, every key, every length including 0, full width and out-of-range values",
  "tests insert selected keys; branch choice depends on the first differing bit relative to two lengths",
  RX,[("common-prefix split","insert, inplaceInsert"),("prefix mask tables","masks32, masks64")],["Node32/Node64 Insert, InplaceInsert, then Match/ExactMatch/Enumerate"])
p("C09","Radix Match returns the longest stored prefix containing the key",
  "Match(key, bits) in a 32-bit or 64-bit radix tree (or those inside the sized IP trees) returns the value of the longest stored prefix that is no longer than 'bits' and agrees with key on its whole length, and true; it returns false with the zero value exactly when no stored prefix contains the key.",
  ["inputs","histories"],"every reachable tree, every key and length",
  "tests probe selected keys; the answer depends on every ancestor on the path",
  RX,[("descent with fallback to the nearest enclosing leaf","match")],["Node32/Node64 Match"])
p("C10","Radix ExactMatch finds a prefix exactly when it is stored",
  "ExactMatch(key, bits) in a radix tree returns the value and true exactly when a prefix of that length agreeing with key on its whole length is stored, and the zero value and false otherwise; FindNode returns that entry's node or nil on the same condition. Internal branching nodes are never reported as entries.",
  ["inputs","histories"],"every reachable tree, every key and length",
  "tests probe selected keys",
  RX,[("exactMatch descent","exactMatch, FindNode")],["Node32/Node64 ExactMatch, FindNode"])
p("C11","Radix Delete removes exactly the prefixes contained in the key",
  "Delete(key, bits) in a radix tree returns a tree without exactly those prefixes that are equal to or longer than and contained in the given prefix, every other prefix keeping its value; the flag is true exactly when at least one prefix was removed.",
  ["inputs","histories"],"every reachable tree, every key and length",
  "which nodes collapse after a removal depends on shape and leaf flags",
  RX,[("subtree cut and collapse of a branching node left with one child","del")],["Node32/Node64 Delete, then Match/ExactMatch/Enumerate"])
p("C12","Radix enumeration yields every stored prefix once, in key order",
  "Enumerate of a radix tree sends each stored entry exactly once and nothing else, in ascending order of keys with a prefix before the longer prefixes it contains, and then closes the channel; a nil tree gives a channel that closes at once.",
  ["inputs","histories","schedules"],"every reachable tree and consumer schedule",
  "tests enumerate a few trees",
  RX,[("pre-order recursion, leaves only","enumerate"),("deferred close","Enumerate")],["Node32/Node64 Enumerate"])
p("C13","IP tree insertion binds exactly the given network",
  "InsertNet, InsertIP, InplaceInsertNet and InplaceInsertIP of the IP trees bind exactly the given network (an address counts as a full-length network) to the value and leave every other network of both address families unchanged, whatever mix of prefix lengths shorter than, equal to or longer than 64 bits is stored. IPv4 and IPv6 entries never affect each other, and a nil network or one whose address and mask sizes do not agree changes nothing.",
  ["inputs","histories"],"every tree, every IPv4/IPv6 network of every prefix length, every malformed network",
  "tests use a few networks; IPv6 is split into two 64-bit halves so boundary lengths behave specially",
  IP,[("IPv4/IPv6 classification and packing","iPv4NetToUint32, iPv6NetToUint64Pair"),("two-level 64+64 tree","InsertNet, InplaceInsertNet")],["iptree.Tree"])
p("C14","IP lookup returns the longest stored network containing the query",
  "GetByNet and GetByIP return the value of the longest stored network of the same address family that contains the queried network or address (an IPv4-mapped IPv6 address given as an IP counts as IPv4), and true; they return false with the zero value exactly when there is none, including for nil trees and nil or malformed queries. For IPv6 this holds across the 64-bit boundary: when nothing longer than 64 bits matches, the best shorter network is returned.",
  ["inputs","histories"],"every tree, every query network and address",
  "tests use a few networks around the boundary",
  IP+RX,[("two-stage match with fallback","GetByNet")],["iptree.Tree GetByNet, GetByIP"])
p("C15","IP deletion removes exactly the networks contained in the argument",
  "DeleteByNet and DeleteByIP return a tree without exactly the stored networks of that address family that lie inside the given network, every other binding unchanged, and true exactly when something was removed; otherwise the same tree and false, also for nil trees and nil or malformed networks. For IPv6 networks of 64 bits and longer this is within the /64 the argument belongs to.",
  ["inputs","histories"],"every tree, every network",
  "tests delete exact entries only, for IPv6",
  IP+RX,[("two-level delete","DeleteByNet")],["iptree.Tree DeleteByNet, DeleteByIP"])
p("C16","IP enumeration reports every stored network with its own address and mask",
  "Enumerate of an IP tree sends exactly the stored bindings, each once, IPv4 before IPv6: each key is the network that was inserted, with host bits cleared and the mask of its original prefix length and family, and it then closes the channel. A nil or empty tree gives a channel that closes at once.",
  ["inputs","histories","schedules"],"every tree",
  "tests enumerate one tree",
  IP,[("unpack and re-mask","enumerate, unpackUint32ToIP, unpackUint64ToIP")],["iptree.Tree Enumerate"])
p("C17","UpdateDescendants offers exactly the strict descendants to the callback",
  "UpdateDescendants calls the callback only for stored networks strictly inside the target network, for all of them exactly once when the target itself is stored and otherwise either for all or for none, each with its own network and current value; it replaces the value exactly when the callback asks for it and changes nothing else. A nil tree, nil or malformed target has no effect.",
  ["inputs","histories"],"every tree, target and callback",
  "eleven fixed scenarios are tested",
  ["iptree/iptree.go"],[("enumerate the target's subtree, skipping the target","UpdateDescendants, updateNode64")],["iptree.Tree UpdateDescendants"])
p("C18","Domain parsing accepts exactly well-formed names within DNS limits",
  "For every string, making a domain name either returns an error or a name whose labels, read back in order from the rightmost, are exactly the unescaped upper-cased labels of the string, each 1 to 63 bytes, at most 127 of them and at most 255 bytes in all including the length bytes; longer labels, longer names, more labels, empty labels and bad escapes are errors. The empty string and a single dot are the root name with no labels, one ending dot is ignored, and the human-readable form is kept as given.",
  ["inputs"],"every byte string",
  "tests cover sample strings; limits interact with escapes and position",
  DM,[("label marking automaton","markLabels"),("label decoding automaton","getLabel"),("bounded fixed buffers","MakeNameFromString")],["domain.MakeNameFromString, MakeLabel, Name.GetLabels"])
p("C19","Label canonical form folds case and resolves escapes",
  "Making a label maps each unescaped byte, each backslash followed by a non-digit, and each backslash followed by three digits (value at most 255) to one byte with ASCII a-z folded to A-Z and every other byte kept, ignores one ending dot, and fails with an error for a result longer than 63 bytes or an incomplete or out-of-range escape. Hence names or labels that differ only in ASCII letter case, or in the escaping of the same bytes, are the same key everywhere.",
  ["inputs"],"every byte string without an unescaped dot before its end",
  "tests cover sample labels, not all 256 byte values in all escape states",
  DM,[("decoding automaton","getLabel")],["domain.MakeLabel"])
p("C20","Human-readable labels parse back to the same label",
  "For every canonical label of up to 63 bytes, the human-readable form contains only printable ASCII, and making a label from it gives back exactly the same bytes. For longer input the output is a prefix cut at a whole escape and never exceeds 252 bytes.",
  ["inputs"],"every label over all byte values",
  "tests cover one label with a space and a dot",
  DM,[("escaping","MakeHumanReadableLabel"),("decoding","getLabel")],["domain.MakeHumanReadableLabel, MakeLabel, tree enumeration keys"])
p("C21","Domain package functions are total",
  "No function of the domain package panics, loops forever or reads outside its argument, whatever string, label, offset or name made by the package it is given; wrong input gives an error, an empty result or the documented error offset. The exceptions are the explicit refusals: a label with an unescaped dot before its end, and extracting a name from a reflected value that is neither a name nor a valid string.",
  ["inputs"],"every argument value",
  "tests sample inputs; out-of-range indexing depends on exact lengths",
  DM,[("bounds checks before each buffer write","getLabel, markLabels, MakeHumanReadableLabel, GetLabel")],["domain package API"])
p("C22","Domain tree insertion binds exactly the given name",
  "After Insert or InplaceInsert of a name the domain tree (generic and sized) holds exactly the bindings it held before except that the name (the root name included) is bound to the value. Both kinds of insertion may be mixed in any order on trees produced by any operation, including a nil tree for Insert and a tree emptied by deletion.",
  ["inputs","histories"],"every tree reachable by any mix of operations, every valid name up to 127 labels",
  "tests insert a few names and never mix the two kinds",
  DT,[("path copy down the labels","Insert"),("in-place descent","InplaceInsert")],["domaintree.Node"])
p("C23","Domain lookup returns the nearest enclosing name's value",
  "Get of a name in a domain tree returns the value bound to the name itself or, failing that, to its closest ancestor that is bound (the root name is an ancestor of every name), and true; it returns false with the zero value exactly when neither the name nor any ancestor is bound.",
  ["inputs","histories"],"every tree and name",
  "tests look up eight names",
  DT,[("descent keeping the last value seen","Get")],["domaintree.Node Get"])
p("C24","Domain deletion removes exactly the name or exactly its subtree",
  "Delete returns a tree without exactly the binding of the given name, and true, or an unchanged tree and false when that name is not bound; DeleteSubdomains returns a tree without exactly the bindings of the name and of all names under it, and true exactly when there was at least one such binding. Both work for every valid name up to the maximum of 127 labels and for the root name.",
  ["inputs","histories"],"every tree and every name including the longest",
  "tests delete a few short names",
  DT,[("branch recording in fixed arrays","getBranch"),("rebuilding with pruning","copyBranch")],["domaintree.Node Delete, DeleteSubdomains"])
p("C25","Domain enumeration reports every binding once with a parsable name",
  "Enumerate of a domain tree sends every binding exactly once with the full human-readable name whose labels, read from the root down, are those it was stored under, always in the same order for the same tree, and then closes the channel; a nil tree gives a channel that closes at once.",
  ["inputs","histories","schedules"],"every tree",
  "tests enumerate a few trees",
  DT,[("recursion building dotted names","enumerate")],["domaintree.Node Enumerate"])
p("C26","Nil trees behave as empty trees",
  "Calling any non-in-place tree operation on a nil tree behaves as on an empty tree and never panics: lookups and deletions report nothing found, enumeration closes at once, and insertion returns a new tree with the one entry.",
  ["inputs"],"every operation and argument",
  "tests call some of the operations on nil",
  RB+RX+IP+DT,[("nil-receiver guards","every public method")],["public tree API on nil receivers"])
p("C27","Tree operations never panic on trees built through the API",
  "On every tree that some history of API calls can produce, every operation with well-typed arguments returns normally: no nil dereference, no index or shift out of range, no failed type assertion, however the tree was shaped by earlier operations.",
  ["inputs","histories"],"every reachable tree, every argument; in-place operations on non-nil receivers only",
  "rare shapes (for example a sibling missing during deletion) are not sampled",
  RB+RX+IP+DT,[("structural invariants relied on without checks","del in strtree/node.go, GetByNet, InsertNet, getBranch")],["public tree API"])
p("C28","The template generator never overwrites its own template",
  "The template-catalogue generator creates a directory or writes a file only at a path different from the template path it is executing, and stops with an error otherwise; every failure to read data, parse, create or execute a template stops it with an error rather than being ignored, and a missing or non-map element on the data selector path is an error.",
  ["inputs","fault_sequences"],"every template path, data file, selector and I/O failure",
  "only the path-splitting helpers are tested",
  ET,[("name comparison before writing","execute"),("log.Fatal on every error","all files of etc")],["files written by the generator"])
p("C29","Channel producers stop and close exactly once",
  "Every enumeration of every tree starts one producer that sends on the returned channel only, closes it exactly once after the last entry on every way out, and never sends after closing, so a consumer that drains the channel always terminates; enumerations which the library starts for its own use are drained by it.",
  ["schedules","inputs"],"every tree and consumer schedule",
  "a missing close on one path hangs only the consumer that meets it",
  RB+RX+IP+DT,[("defer close(ch)","every Enumerate")],["all Enumerate methods"])
p("C30","Time and memory bounds of operations under load",
  "Operations complete within stated wall-clock and allocation bounds, and a consumer that abandons an enumeration does not leak its producer.",
  ["schedules","inputs"],"every workload and consumer",
  "needs measurement under load",
  RB+RX,[("none","-")],["benchmarks"])
with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x)+"\n")
print(len(P))
