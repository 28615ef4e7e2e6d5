#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line).  Edit here, then run."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=list(state),
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=observe, hook_needed=hook)))

FM = ["include/Format.hxx", "src/Format.cxx"]
prop("F01", "Values land in exactly the placeholders that name them",
 "In the text a format object produces, the k-th value supplied (counting from zero) replaces every occurrence of the placeholder %k - a percent sign followed by the longest run of decimal digits - and changes nothing else; %% comes out as one percent sign and all other text, a stray percent sign included, is copied unchanged. A placeholder whose value has not been supplied stays visible as it was written, and values beyond the last placeholder are accepted and ignored. Text inserted for a value is never itself interpreted as a placeholder or an escape.",
 ["inputs", "histories"], "every format string and every sequence of supplied values, inserted texts included",
 "FormatTest prints a handful of fixed strings; it never varies the format string, so adjacent, repeated, escaped, unfilled, multi-digit and value-that-looks-like-a-placeholder cases are not compared with anything.",
 FM, [("scanner of the format string", "src/Format.cxx Format::initialScan"), ("field insertion", "src/Format.cxx Format::insertField"), ("assembly", "src/Format.cxx Format::str")],
 ["Format::str()", "operator<<(ostream, Format)"])
prop("F02", "A format object can be inspected freely and reused after reset",
 "After a reset a format object behaves exactly like a newly constructed one for the same format string, whatever was supplied to it before. Asking for its text or streaming it never changes it, can be repeated with the same answer, and both ways give the same text. Asking for the text with the completeness check raises the format exception exactly when some placeholder is still unfilled, and otherwise gives the same text as without the check.",
 ["inputs", "histories"], "every format string and every history of supplying, inspecting and resetting",
 "No test calls reset or the completeness check, and none inspects an object twice.",
 FM, [("reset", "src/Format.cxx Format::reset"), ("str(check)", "src/Format.cxx Format::str"), ("operator<<", "src/Format.cxx")], ["Format::reset()", "Format::str(bool)", "operator<<"])
prop("F03", "Signed integers print exactly, grouped and padded as asked",
 "A signed integer is rendered as its exact decimal value, with a minus sign only when it is negative. If a separator is given it appears between groups of three digits counted from the right and nowhere else (never next to the sign). The field is filled on the left with the fill character (blank by default) up to the requested width and is never truncated.",
 ["inputs"], "every 32-bit value, every separator and fill character, every width",
 "FormatTest compares four fixed positive values; negative values with a separator and the extremes are never printed.",
 FM, [("addI", "src/Format.cxx Format::addI")], ["Format::addI"])
prop("F04", "Unsigned values print exactly in the chosen base, grouped and padded",
 "An unsigned 64-bit value is rendered exactly in the chosen base: hexadecimal as 0x followed by at least width digits (zero filled, letter case chosen by the format letter), octal with a leading 0 and zero filled to width, anything else as decimal filled with blanks on the left to width; nothing is ever truncated. If a separator is given it appears exactly between groups of the requested size of the digits counted from the right, never within or right after the base prefix, never among filling blanks and never at an end of the number.",
 ["inputs"], "every 64-bit value, format letter, width, separator and group size of at least one",
 "FormatHexTest compares about 25 fixed triples, all with group size 4 and separators only in hexadecimal.",
 FM, [("addU", "src/Format.cxx Format::addU"), ("toHex", "src/Format.cxx Format::toHex"), ("toOct", "src/Format.cxx Format::toOct")], ["Format::addU"])
prop("F05", "Strings, characters and booleans are inserted whole and justified",
 "A string is inserted complete and unchanged whatever bytes it holds, preceded by just enough blanks to reach a positive width and followed by just enough blanks to reach the magnitude of a negative width. A character is inserted as that one character, and a boolean as T or F.",
 ["inputs"], "every string, every width, every character, both booleans",
 "Only addS without a width is exercised, and its result is printed rather than compared.",
 FM, [("addS", "src/Format.cxx Format::addS"), ("addC/addB", "src/Format.cxx")], ["Format::addS", "Format::addC", "Format::addB"])
prop("F06", "Fixed, scientific and general floats match the C++ stream; NaN/inf safe",
 "Formatting any double always terminates: NaN comes out as nan and an infinity as inf whatever the representation letter. A finite value in the f, s and g representations is the text the C++ stream gives for fixed, scientific and general notation with the requested number of digits, except that the radix character is the one configured for the library. Each of these is left justified and followed by blanks up to at least the requested width.",
 ["inputs"], "every double, NaN payloads, infinities, zeros and denormals included; every width and digit count",
 "FormatTest re-reads randomly drawn values with a loose tolerance and never looks at padding, justification or precision; FormatNaN checks two fixed calls.",
 FM, [("addF", "src/Format.cxx Format::addF"), ("pad", "src/Format.cxx pad")], ["Format::addF"])
prop("F07", "Engineering notation: exponent multiple of 3, mantissa 1 to 999, accurate",
 "In the e representation a finite non-zero double is printed as a sign position, an integer part from 1 to 999, a radix character (the configured one) and fraction when digits remain, the letter e and a signed exponent that is a multiple of three. Integer and fraction digits together number exactly the requested significant digits (or are just the integer part padded with zeros when that is longer), and the printed value differs from the true one by at most one unit of the last significant digit. Zero prints as zero, and every field is followed by blanks up to at least the requested width.",
 ["inputs"], "every finite double, the smallest and the largest included; 1 to 12 significant digits; every width",
 "FormatTest draws values with a tolerance of 5*10^-digits on the re-read value only; exponent form, mantissa range, digit count and values next to a power of 1000 are never checked.",
 FM, [("addF case e", "src/Format.cxx Format::addF"), ("log1k", "src/Format.cxx log1k"), ("fractionate", "src/Format.cxx fractionate")], ["Format::addF"])
prop("F08", "An extended format prints exactly what the plain format prints",
 "A user class built on the extension template prints, for every value-supplying call it inherits, exactly the text the plain format object prints for the same format string and arguments, without narrowing any value. Each such call returns a reference to the user's own object, so chains may mix inherited and user-defined calls.",
 ["inputs", "histories"], "all argument values and call sequences",
 "No test instantiates the extension template.",
 ["include/Format.hxx"], [("Format_ext", "include/Format.hxx Format_ext")], ["Format_ext<T>::addI/addU/addF/addS/addC/addB"])

UT = ["include/Utils.hxx", "src/Split.cxx"]
prop("U01", "Squashing spaces trims the ends and collapses runs, nothing else",
 "Squashing a string removes all blanks at both ends, replaces every inner run of blanks by exactly one blank, and keeps every other character, tabs and newlines included, in its order. It is idempotent and safe for every string, the empty and the all-blank one included.",
 ["inputs"], "every string", "No test calls it; SplitTest reaches it only with one string that needs no squashing.",
 UT, [("squashSpaces", "src/Split.cxx squashSpaces")], ["SoDa::squashSpaces"])
prop("U02", "Splitting yields the pieces between delimiters, in order",
 "Splitting a string first squashes its blanks and then yields, in order, the text before each delimiter character and finally any non-empty text after the last one; a piece never contains a delimiter and no character is lost or duplicated. Empty pieces are kept when empty tokens are wanted and dropped when they are not. The list and vector forms give the same pieces for the same arguments.",
 ["inputs"], "every string, every delimiter set (the empty one included), both settings",
 "SplitTest splits one string on one delimiter; empty pieces, several delimiters and the no-empty mode are not exercised.",
 UT, [("split", "src/Split.cxx split"), ("splitVec", "src/Split.cxx splitVec")], ["SoDa::split", "SoDa::splitVec"])

OP = ["include/Options.hxx", "src/Options.cxx"]
prop("O01", "Every command line token is routed to the right option or position",
 "When a command line is accepted, each option token (-c or --name) affects exactly the option registered under that name, a following value token is consumed by exactly the option that needs it, and every token that is neither appears among the positional arguments in its original order; nothing is lost, duplicated or assigned elsewhere. A numeric option, scalar or vector, accepts a value that starts with a minus sign, and an option without a default always takes the next token whatever it looks like. An unknown option makes the parse report failure, and so does a help request.",
 ["inputs"], "every token list over a registered set of presence, scalar (with and without default) and vector options",
 "OptionsTest parses one fixed token list once.",
 OP, [("parse", "src/Options.cxx Options::parse(list)"), ("isSwitch", "src/Options.cxx Options::isSwitch"), ("findOpt", "src/Options.cxx")], ["Options::parse", "Options::getPosArgs", "target variables"])
prop("O02", "Option values are converted faithfully or the parse fails",
 "A value handed to an option is stored exactly: strings verbatim, integers as the C++ stream reads them, booleans true for text starting with T or t or for a non-zero number and false for text starting with F or f or for zero. If the text cannot be converted or the option's acceptance test rejects the converted value, the parse reports failure and, for a vector option, nothing is appended. Vector options append one element per occurrence, in order.",
 ["inputs"], "every value text and every acceptance test", "OptionsTest supplies seven well-formed values and no acceptance test, and never a malformed value.",
 OP, [("setValBase", "include/Options.hxx OptBase::setValBase"), ("Opt::setVal / OptVec::setVal", "include/Options.hxx")], ["Options::parse", "target variables"])
prop("O03", "A command string means the same as its list of tokens",
 "Parsing a command given as one string has exactly the effect and result of parsing the list of its tokens: tokens are separated by white space, double quotes group white space (and nothing else) into a token and are themselves removed, and a closing quote ends its token. Parsing argc/argv has the effect of parsing the list of all arguments after the program name.",
 ["inputs"], "every string and every argv", "No test parses a string, and OptionsTest never passes real argv tokens.",
 OP, [("buildTokenList", "src/Options.cxx Options::buildTokenList"), ("parse overloads", "src/Options.cxx")], ["Options::parse(string)", "Options::parse(argc, argv)"])
prop("O04", "Key=value lists set exactly the named options",
 "Parsing a comma separated key=value list assigns each value to the option of that name, exactly as the corresponding long options on a command line would, in order; blanks around an entry are ignored and an empty entry has no effect. An unknown key or unacceptable value makes the parse report failure. No list, however malformed, makes the parser read outside its input.",
 ["inputs"], "every string; exact effect for entries key=value with non-empty key and value free of = , and runs of blanks", "No test uses the key=value parser.",
 OP, [("parseKeyValue", "src/Options.cxx Options::parseKeyValue")], ["Options::parseKeyValue", "Options::parse in key=value mode"])
prop("O05", "Presence, defaults and positional access stay truthful across parses",
 "An option reports itself present, under its long and its short name alike, once it was named on an accepted command line, with or without a value, and never if it was not named at all; an option never named keeps its default (or the zero value), and presence flags are true exactly if named. Each parse stands on its own: whatever an earlier parse of the same object saw, failed ones included, the next command line is interpreted by the same rules. Asking for a positional argument outside the range 0 to count-1 gives an empty string and never touches other memory.",
 ["inputs", "histories"], "every sequence of parses and queries", "OptionsTest parses once, names every option with a value, and only asks for valid positions.",
 OP, [("setPresent/isPresent", "include/Options.hxx, src/Options.cxx"), ("getPosArg", "src/Options.cxx Options::getPosArg"), ("waiting_for_signed", "src/Options.cxx Options::parse")], ["Options::isPresent", "Options::getPosArg", "Options::parse"])

prop("O06", "Help lists everything and errors say what was wrong",
 "The help text starts with every information text in the order given and then has an entry for every registered option that shows its long name, its abbreviation (except in key=value mode) and its documentation, whatever characters these contain; it can be asked for repeatedly. A help request on a command line prints this text on the error stream. A refused command line prints a message there that shows the unknown option token, or the long name of the option, the refused text and the explanation given for it; an accepted command line prints nothing.",
 ["inputs"], "every documentation, information and explanation text, every value and token",
 "No test looks at the help or at any message.",
 OP, [("printHelp", "src/Options.cxx Options::printHelp, OptBase::printHelp"), ("diagnostics", "src/Options.cxx Options::parse, include/Options.hxx BadOptValueException")], ["Options::printHelp", "standard error"])

MB = ["include/MailBox.hxx"]
prop("M01", "Every subscriber gets every message once, in order",
 "Each message put into a mailbox is delivered exactly once to every subscription that exists at that moment (except the sender's own, if the sender names it) and to no other, and every subscription hands out its messages in the order in which they were put. Taking from an empty subscription returns immediately with no message. The outstanding-message counts (one subscription's, and the smallest over all) and the subscriber count are exact.",
 ["histories"], "every sequence of subscribe, put, get, count, clear and unsubscribe operations",
 "MailBoxTest checks a sum of payloads from a fixed pattern of puts followed by gets; order, late subscription, counts and unsubscription during traffic are not checked.",
 MB, [("put/get", "include/MailBox.hxx MailBox::put, get"), ("readyCount/minReadyCount", "include/MailBox.hxx")], ["MailBox::get", "MailBox::readyCount", "MailBox::minReadyCount", "MailBox::subscriberCount"])
prop("M02", "Subscriptions are independent and never confused",
 "Clearing, draining or ending one subscription never adds, removes or reorders a message of any other subscription, and a subscription started later never receives earlier messages nor anything left behind by an ended one. Using a subscription with a mailbox it does not belong to raises the mailbox exception and changes nothing in either mailbox. A mailbox pointer converted to the wrong message type raises the mailbox exception; converted to the right one it is the same mailbox.",
 ["histories"], "every sequence of operations on one or two mailboxes with several subscriptions",
 "MailBoxTest never clears or unsubscribes while others hold messages, and has a single mailbox in use.",
 MB, [("unsubscribe/clear", "include/MailBox.hxx"), ("SubscriptionCl::getIndex", "include/MailBox.hxx"), ("convert", "include/MailBox.hxx MailBoxBase::convert")], ["MailBox API"])
prop("M03", "A message lives exactly as long as somebody can still read it",
 "A message stays alive while any subscription still has to deliver it or any reader holds it, and it is destroyed as soon as the last such claim ends - by delivery, clearing, unsubscription or destruction of the mailbox. No message is destroyed twice or leaked, and a mailbox with no subscribers keeps nothing.",
 ["histories"], "every sequence of operations, including ending subscriptions and mailboxes with messages outstanding",
 "MailBoxTest only checks that the number of live messages is zero after everything has been read.",
 MB, [("queues of shared_ptr", "include/MailBox.hxx message_queues")], ["destructor of the message type"])
prop("M04", "Concurrent mailbox use behaves as some one-at-a-time order",
 "When several threads subscribe, put, get, count, clear and unsubscribe on one mailbox at the same time, every operation takes effect atomically: no message is lost, duplicated or delivered to two reads of one subscription, all subscriptions see the messages they share in the same order, and each sender's messages keep their order. No interleaving makes two threads access the mailbox's state without mutual exclusion, and no operation blocks forever.",
 ["schedules"], "every interleaving of the operations of several threads",
 "MailBoxTest runs whatever interleavings the scheduler happens to produce and compares only a sum.",
 MB, [("mtx", "include/MailBox.hxx lock_guard in each operation")], ["MailBox API from several threads"])

BA = ["include/Barrier.hxx", "src/Barrier.cxx"]
prop("B01", "Nobody passes the barrier early",
 "A wait on a barrier for N waiters returns normally only after N waits (its own included) of the same round have been called, and each completed round releases exactly N of them, whatever the interleaving, spurious wake-ups included, and however many threads share the barrier. The guarantee holds anew for every round, also when fast threads re-enter before slow ones have left.",
 ["schedules"], "every interleaving of up to N or more threads over several rounds",
 "BarrierTest only notices a time-out; a barrier that lets a thread through early passes it.",
 BA, [("wait", "src/Barrier.cxx Barrier::wait"), ("barrier_count", "src/Barrier.cxx")], ["return of Barrier::wait"])
prop("B02", "When everyone has arrived everyone is released",
 "Once N waits of a round have been called, all N return normally without further help: no wake-up is lost and no thread stays blocked, for every round and every interleaving, for waits with and without a time limit. A wait with limit zero has no practical limit (at least 1000 days) and a non-zero limit is used exactly as given, in milliseconds (one of more than a hundred years may be cut to that).",
 ["schedules", "inputs"], "every interleaving over several rounds; every time limit",
 "BarrierTest samples interleavings and has a 100 ms limit; it cannot exclude a rare lost wake-up, and never inspects the limit.",
 BA, [("notify", "src/Barrier.cxx Barrier::wait"), ("timeout conversion", "src/Barrier.cxx Barrier::wait(unsigned long)")], ["return of Barrier::wait"])
prop("B03", "A timed-out barrier fails for everyone, loudly",
 "If a wait reaches its time limit before its round is complete, exactly one waiter of that barrier gets the time-out exception and every other wait, already pending or called later, gets the corrupt-barrier exception; none returns normally, even if enough further waits arrive. A wait whose round was completed never gets either exception. The exceptions are catchable as the library's common exception type.",
 ["schedules", "fault_sequences"], "every interleaving of waits and expiring limits",
 "FastBarrierTest_should_timeout only checks that some exception text is printed.",
 BA, [("corrupted flag", "src/Barrier.cxx Barrier::wait"), ("Timeout/Corrupt", "include/Barrier.hxx")], ["exceptions of Barrier::wait"])

PT = ["include/PropertyTree.hxx", "src/PropertyTree.cxx"]
prop("P01", "A path names exactly the node reached by its keys",
 "Looking up a colon separated path descends one level per key and yields exactly the node stored under that sequence of keys, or reports that it is not found if any key is missing on its level - by the not-found exception when exceptions are asked for and by a null or false result otherwise. Lookups never modify the tree. Listing the keys of a node gives exactly the keys of its children, and listing its elements exactly its list, in order.",
 ["inputs"], "every tree and every path", "PropertyTreeYAML_Test only dumps a tree; no test looks anything up.",
 PT, [("getProp/getPropRecursive", "src/PropertyTree.cxx"), ("PropertyTree::get", "include/PropertyTree.hxx")], ["PropNode::getProp", "PropertyTree::get", "getKeys", "getList"])
prop("P02", "Loading a document makes every scalar reachable where it stands",
 "After loading a document of nested maps, each scalar is found under exactly the path of keys leading to it, with its text unchanged, each inner map is a non-terminal node with exactly its keys, and the scalars of a sequence are kept, in order, in the element list of the node that contains the sequence; nothing else appears. A file that cannot be opened raises the file-not-found exception of the library.",
 ["inputs"], "every document of nested maps, sequences of scalars, and scalars", "PropertyTreeYAML_Test loads one file and compares nothing.",
 ["include/PropertyTreeYAML.hxx", "src/PropertyTreeYAML.cxx"], [("fillRecurse", "src/PropertyTreeYAML.cxx"), ("readFile", "src/PropertyTreeYAML.cxx")], ["PropertyTree::get", "PropNode::getKeys/getList"])
prop("P03", "Reading a property converts it or says so",
 "Reading a property as a given type yields what the C++ stream reads from its text and reports success, or, if the text does not start with such a value, reports failure - by the bad-type exception when exceptions are asked for and by a false result otherwise. The bad-type exception message names the path of the property and its text.",
 ["inputs"], "every property text and requested type among the stream-readable ones", "No test reads a property.",
 PT, [("PropNode::get", "include/PropertyTree.hxx"), ("getPathName", "src/PropertyTree.cxx")], ["PropNode::get", "PropertyTree::get"])
prop("P04", "A node's path name leads back to the node",
 "The path name a node reports is the sequence of keys from the root to it joined with colons, so that looking this name up at the root yields the node again, for nodes on every level and for every key that is non-empty and free of colons. Asking for it changes nothing.",
 ["inputs"], "every tree and every key", "No test asks for a path name.",
 PT, [("getPathName", "src/PropertyTree.cxx PropNode::getPathName")], ["PropNode::getPathName", "PropNode::getProp"])
prop("P05", "A dump shows the whole tree and changes nothing",
 "Dumping a tree writes every key, with the text of a leaf after its key, and every element of every list in order after the keys leading to it, to the given stream, returns that stream, and leaves the tree as it was, so that it can be repeated with the same result.",
 ["inputs"], "every tree, key and text", "PropertyTreeYAML_Test dumps one tree and compares nothing.",
 PT, [("dump", "src/PropertyTree.cxx PropertyTree::dump, PropNode::dump")], ["PropertyTree::dump"])

prop("X01", "Every exception says what it is about and is catchable as the library's",
 "Each error is raised as its documented exception class, which can also be caught as the component's exception class, as the library's common exception class and as a standard exception, always with the same text. The text names what the error is about, whatever characters the name consists of: the file that was not found; the path that was not found; the path and the text of a property of the wrong type; the mailbox of a failed conversion; both mailboxes of a mismatched subscription; the barrier, and the limit in milliseconds, of a time-out.",
 ["inputs"], "every name, path, text and limit", "The tests print exception texts without comparing them, and provoke only two kinds.",
 ["include/Exception.hxx", "include/Barrier.hxx", "include/MailBox.hxx", "include/PropertyTree.hxx", "src/PropertyTree.cxx", "include/Format.hxx"], [("exception classes", "the constructors of the exception classes")], ["what() of the exceptions", "catch clauses"])


prop("F09", "Format objects, their copies and the strings they came from are independent",
 "What is done to one format object - supplying values, resetting, copying, assigning, destroying it - never changes the text or the completeness of any other. A copy, by construction or assignment, has the format string and the values supplied so far of its original and from then on a life of its own. Strings handed to a format object may be changed or destroyed afterwards.",
 ["inputs", "histories"], "every history of operations on several objects and their copies, and all values",
 "No test has two format objects in use at once or copies one.",
 FM, [("state of the object", "include/Format.hxx Format (orig_fmt_string, format_string_segments, cur_arg_number)")], ["Format(const Format&)", "Format::operator=", "Format::str()"])
prop("O07", "Option objects are independent of each other",
 "A program may have several option objects. Registering options with, or parsing a line by, one of them, accepted or refused, changes neither the registered variables, the presence, the positional arguments nor the later behaviour of another, and the same option names may be registered with each of them. Destroying one leaves the others working.",
 ["inputs", "histories"], "every history of registrations and parses on two objects, and all lines",
 "Each test program has one option object.",
 ["include/Options.hxx", "src/Options.cxx"], [("maps of registered options", "include/Options.hxx Options (long_map, ab_map, pos_arg_vec)")], ["Options::add", "Options::parse", "Options::isPresent", "Options::getPosArg"])
prop("B04", "Barriers do not affect each other",
 "Different barriers, whatever their names and numbers of waiters, are independent: in every schedule each one releases its own rounds, exactly when its own number of threads has arrived, and a time limit that expires on one of them makes only waits on that one fail, while threads waiting at the other neither time out nor see a corrupt barrier.",
 ["schedules", "fault_sequences"], "every interleaving of threads at two barriers, with and without a limit that expires",
 "BarrierTest uses one barrier at a time.",
 ["include/Barrier.hxx", "src/Barrier.cxx"], [("state of the barrier", "include/Barrier.hxx Barrier (waiting, barrier_count, corrupted, mtx, cv)")], ["return and exceptions of Barrier::wait"])
prop("P06", "Reading further documents adds to a tree and to no other tree",
 "A tree can read several documents one after another. Each adds its entries: those under a key that is new appear beside the earlier ones, those under a key the tree already has on the top level take the place of the earlier one, and elements of top level sequences, or a document that is just one scalar, are appended in the order read. A file that cannot be opened leaves the tree as it was, and no read changes another tree.",
 ["inputs", "histories"], "every sequence of documents read by two trees",
 "PropertyTreeYAML_Test reads one document into one tree.",
 ["include/PropertyTreeYAML.hxx", "src/PropertyTreeYAML.cxx"], [("readFile/fillRecurse", "src/PropertyTreeYAML.cxx")], ["PropertyTreeYAML::readFile", "PropertyTree::get"])
prop("X02", "Different objects can be used from different threads at the same time",
 "Threads that each use format, option, property tree and mailbox objects of their own, and the text functions, never conflict: in every schedule there is no data race between them, every thread finishes, and each gets exactly the results it gets when it runs alone.",
 ["schedules", "inputs"], "every interleaving of threads using objects of their own",
 "No test but the barrier's and the mailbox's has threads, and a race on shared hidden state shows in few schedules and on few machines.",
 FM + ["src/Split.cxx", "src/Options.cxx", "src/PropertyTree.cxx", "include/MailBox.hxx"], [("absence of shared mutable state", "all components")], ["results of every operation"])


here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
