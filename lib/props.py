"""The properties, and the files generated from them (bin/mkmeta)."""
P = {}


def p(id, title, statement, over, text, why, files, mech):
    assert len(title) <= 80, title
    P[id] = {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
             "why_tests_cant": why, "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}


p("D01", "Replies go only to whoever asked, at most once",
  "Every message the forwarder sends to a client answers a question that this client asked over the same transport and that was not answered yet: same identifier, name (ignoring case), type and class. "
  "No question is answered twice, and messages from servers that match no question in flight to that server's group (other identifier, name, type, duplicates, late copies) reach nobody.",
  ["schedules", "inputs", "histories"],
  "every interleaving of any clients' questions over UDP and TCP, with colliding identifiers and names, with servers' answers, duplicates, mismatching and late messages",
  "the unit tests exercise the query table alone with a few entries; no test runs the whole program, let alone with colliding questions in flight",
  ["mcontext.c", "udpm.c", "tcpm.c", "hosts.c", "udpfrontend.c", "tcpfrontend.c", "ipmisc.c"],
  [("matching of answers to questions in flight", "mcontext.c, bst.c"), ("return address of a question", "iheader.c, mcontext.c"), ("receiving answers", "udpm.c, tcpm.c")])
p("D02", "An answer in time always reaches its asker",
  "When a server answers a question within two seconds of being asked, and nothing configured blocks that answer, the client that asked receives it, however many other questions are in flight and in whatever order they are asked and answered.",
  ["schedules", "histories", "inputs"],
  "every history of up to hundreds of questions in flight, answered in any order, with any mixture of identifiers, names and types",
  "the tests insert and remove a handful of fixed entries; losing one of many queries depends on the order of insertions and removals",
  ["mcontext.c", "bst.c", "udpm.c", "tcpm.c"],
  [("table of questions in flight", "mcontext.c, bst.c"), ("answer loops", "udpm.c UdpM_Works, tcpm.c TcpM_Works")])
p("D03", "Unanswered queries expire and the group fails over",
  "A question a UDP server leaves unanswered is forgotten at the latest about thirteen seconds after it was asked, and never earlier than two seconds; an answer that arrives afterwards is dropped silently. "
  "When a sequential group has let a question time out it uses its next server for later questions, going round all of them, and as long as nothing times out it stays with the server it uses.",
  ["schedules", "fault_sequences", "histories"],
  "every pattern of silent servers, late answers and pauses, for groups of one to four servers",
  "no test lets time pass with questions in flight or has more than one server",
  ["udpm.c", "mcontext.c", "addresslist.c"],
  [("housekeeping of questions in flight", "mcontext.c ModuleContext_Sweep"), ("moving on to the next server", "udpm.c SweepTask, addresslist.c AddressList_Advance")])
p("D04", "Forwarded messages pass through byte for byte",
  "A question that is forwarded reaches the server exactly as the client sent it, and the answer reaches the client exactly as the server sent it, apart from TCP length prefixes: flags, letter case, EDNS options, record order, compression and unknown types included, for messages of up to about 3500 bytes.",
  ["inputs", "configurations"],
  "all well-formed questions and answers, over every combination of client and server transport",
  "no test sends a message through the program",
  ["udpfrontend.c", "tcpfrontend.c", "udpm.c", "tcpm.c", "mcontext.c", "iheader.c"],
  [("sending upstream", "udpm.c UdpM_Send, tcpm.c TcpM_Send"), ("sending back", "mcontext.c MsgContext_SendBack")])
p("D05", "Every question goes to the group its name is configured for",
  "A forwarded question is sent to the servers of exactly one group: the one configured for the name or else for its closest listed parent, else one whose wildcard matches (a bare * only if no other wildcard does), else any group. "
  "Groups of the other transport take part only if the corresponding conversion is enabled, and rules match whole labels and ignore case.",
  ["inputs", "configurations"],
  "all names and all tables of plain, parent and wildcard rules over UDP and TCP groups",
  "the tests look up a few names in one table; they never combine groups, parents, wildcards and transports",
  ["mmgr.c", "stringchunk.c", "simpleht.c"],
  [("choice of the group", "mmgr.c Modules_SafeCleanup/MMgr_Send"), ("name tables", "stringchunk.c StringChunk_Domain_Match")])
p("D06", "Disabled names and types are refused, nothing else is",
  "A question for a disabled name, a name below one, a name matching a disabled wildcard, or a disabled type is answered at once with an empty answer, on the transport it came on, and is never forwarded or answered from anywhere else. "
  "Every other question is not affected, and changes to the list file take effect as a whole at the next reload.",
  ["inputs", "configurations", "histories"],
  "all names, types, rule tables and reload histories",
  "the filter has no test; label boundaries, wildcards and case are only reached by particular names",
  ["filter.c", "stringchunk.c", "mmgr.c"],
  [("filter", "filter.c Filter_Out"), ("reload", "filter.c Filter_Update")])
p("D07", "Hosts entries answer exactly the names they are for",
  "A question for an address (or alias) that the static or dynamic hosts table has for the name, exactly or by wildcard, is answered from the table with the value configured last for it and a TTL of 60 seconds, an IPv6 question being answered with the mapped IPv4 address if there is only one of those. "
  "The static table takes precedence, exact entries take precedence over wildcards, excluded names are never answered from the tables, and questions of other types or for other names pass through.",
  ["inputs", "configurations", "histories"],
  "all names and types, all pairs of static and dynamic tables, before and after reloads",
  "no test covers the hosts tables",
  ["hosts.c", "hostsutils.c", "hostscontainer.c", "statichosts.c", "dynamichosts.c"],
  [("lookup", "hostsutils.c HostsUtils_Try"), ("tables", "hostscontainer.c"), ("order of tables", "hosts.c Hosts_Try_Inner")])
p("D08", "Hosts aliases are resolved and answered under the name asked",
  "A question for a name with an alias in the hosts tables is resolved under the alias, chains of aliases included, and the client gets one answer under its own identifier and name: the alias records followed by the address and alias records found for the target, with the target's result code. "
  "Concurrent questions for the same or different aliases never get each other's answers, and a cycle of aliases ends without harm.",
  ["schedules", "inputs", "configurations"],
  "every interleaving of questions for aliases sharing targets, with answers, timeouts and duplicates",
  "no test covers aliases; mixing up answers needs several redirected questions in flight",
  ["hosts.c", "hostsutils.c", "mcontext.c"],
  [("inner query loop", "hosts.c Hosts_SocketLoop"), ("combining", "hostsutils.c HostsUtils_CombineRecursedResponse")])
p("D09", "IPv6 answers are suppressed where an IPv4 host entry exists",
  "With IPv6 blocking on, an IPv6 address question for a name that has an IPv4 entry (or good-address list) in a hosts table is answered with an empty answer and goes nowhere else; all other questions are treated as without it.",
  ["inputs", "configurations"],
  "all names, types and hosts tables",
  "no test covers it", ["hosts.c", "hostscontainer.c"],
  [("check", "hosts.c Hosts_Try")])
p("D10", "The cache never serves stale data and counts TTLs down",
  "A record is served from the cache only while less time than its TTL has passed since it was received, with the remaining time as its TTL, for every record of the answer including the aliases leading to it; while it is fresh the question is answered from the cache and not forwarded. "
  "With TTLs ignored, records stay and keep their TTL.",
  ["histories", "schedules", "inputs"],
  "every history of questions, answers of any TTL and time passing, including the exact second of expiry and the periodic cleaning",
  "the cache has no test; freshness depends on elapsed time and on reuse of expired entries",
  ["dnscache.c", "cacheht.c"],
  [("lookup", "dnscache.c DNSCache_FindFromCache"), ("cleaning", "dnscache.c DNSCacheTTLCountdown_Task")])
p("D11", "The cache returns exactly the records that were received",
  "An answer from the cache repeats the question and contains exactly the fresh records received earlier for that name (following cached aliases) and type, each once, with unchanged type, class and data, under the question's identifier, and an EDNS record if the question had one. "
  "Records received in any section of an accepted answer (with CacheParallel: of any answer, and all records of a name and type then have the smallest TTL left) are cached; a question for a name or type with no such record is forwarded.",
  ["histories", "inputs"],
  "all sequences of answers with shared names, aliases, record types and data",
  "the cache has no test; confusion between entries depends on what was stored and expired before",
  ["dnscache.c", "cacheht.c", "dnsgenerator.c", "dnsparser.c"],
  [("storing", "dnscache.c DNSCache_AddAItemToCache"), ("hash table", "cacheht.c"), ("generating", "dnsgenerator.c")])
p("D12", "Cache TTL rules apply to the right names",
  "The TTL under which a record is cached is computed by the rule for the asked name, extended to the other names of the answer as the rule says, or else by the rule of the record's own name: not cached, original, fixed, or multiplied and increased; a general override or multiplier applies where no rule does. "
  "The answer passed to the client is not changed by them.",
  ["configurations", "histories", "inputs"],
  "all rule tables, names, alias chains and TTLs",
  "no test covers the rules",
  ["cachettlcrtl.c", "dnscache.c", "stringchunk.c"],
  [("rules", "cachettlcrtl.c"), ("application", "dnscache.c DNSCache_AddAItemToCache")])
p("D13", "The cache file keeps what it should over restarts, and nothing else",
  "With a cache file, the program after being ended at any moment and started again answers from the cache exactly what it would have answered without the interruption: the same records, with their lifetimes having gone on meanwhile. "
  "A cache file that is missing, of another size or of another version is not used but replaced, and nothing else survives: questions in flight are forgotten, and the configuration is what the files then say.",
  ["crash_points", "histories", "configurations"],
  "every history of questions, answers and time passing with kills between any two steps, changed configurations, and damaged or replaced cache files",
  "the cache has no test, and no test starts the program at all",
  ["dnscache.c", "cacheht.c", "ptimer.c"],
  [("opening and checking the file", "dnscache.c DNSCache_Init, IsReloadable"), ("reloading the table", "cacheht.c CacheHT_ReInit"), ("storing", "dnscache.c DNSCache_AddAItemToCache")])
p("D14", "A full cache only ceases to remember",
  "When as much has been cached as the configured size of the cache allows, further records may not be remembered, but nothing else changes: every question is answered, and what is answered from the cache is exactly what the server said with the time left to live. "
  "When what filled the cache has expired, its room is used again for records of the same size.",
  ["histories", "inputs"],
  "all histories with a cache that is filled with records of many sizes, any number of times, and with what expires meanwhile",
  "no test fills a cache",
  ["dnscache.c", "cacheht.c"],
  [("room", "dnscache.c DNSCache_GetAvailableChunk"), ("places", "cacheht.c CacheHT_FindUnusedNode, CacheHT_RemoveFromSlot"), ("sweeping", "dnscache.c DNSCacheTTLCountdown_Task")])
p("D15", "Blocked answers are dropped and addresses substituted",
  "An answer containing an IPv4 or IPv6 address that is blocked, singly or by a network, is dropped, as is one with an error code if negative answers are blocked; addresses with a substitution are replaced in place and nothing else in the message changes. "
  "Single addresses take precedence over networks, dropped answers are not cached, and what is cached is the substituted answer.",
  ["inputs", "configurations"],
  "all answers and all tables of addresses and overlapping networks of any length",
  "no test covers it; the tables' search depends on which networks are configured in which order",
  ["ipmisc.c", "ipchunk.c", "bst.c"],
  [("processing", "ipmisc.c IPMiscMapping_Process"), ("tables", "ipchunk.c")])
p("D16", "Reloading switches everything at once and loses nothing",
  "When files are re-read, the new server groups, hosts, disabled names and address rules take effect together for later questions, questions in flight to the old servers are still answered, and no question is lost or misrouted around the switch. "
  "A group file that cannot be used leaves the running groups in service.",
  ["histories", "schedules", "configurations", "fault_sequences"],
  "every history of reloads with questions in flight before, during and after",
  "no test reloads anything",
  ["mmgr.c", "dynamichosts.c", "filter.c", "ipmisc.c", "udpm.c", "tcpm.c"],
  [("replacing groups", "mmgr.c Modules_Update"), ("dynamic hosts", "dynamichosts.c")])
p("D17", "TCP clients cannot harm each other, and are served as they send",
  "Every complete question a TCP client has sent is served, however the stream is cut and however many questions it sends before an answer, and a client that has stopped sending still receives the answers to its questions. "
  "A connection is closed by the forwarder only after an impossible length or some time after the client stopped sending, in bounded time; clients that come and go, send half messages or never read their answers do not keep others from being served.",
  ["schedules", "inputs", "histories", "fault_sequences"],
  "every segmentation, pipelining, half-close, reset and sequence of up to thousands of clients, with slow and unreading clients among them",
  "no test opens a connection to the program",
  ["tcpfrontend.c", "socketpuller.c", "mcontext.c"],
  [("reading", "tcpfrontend.c TcpFrontend_Work"), ("answering", "mcontext.c MsgContext_SendBack"), ("waiting sockets", "socketpuller.c")])
p("D18", "TCP servers: framing, reuse, retry and failover",
  "Questions to TCP servers are sent length-prefixed over connections that carry one question at a time, are reused only within the keep-alive time, and answers are recognised however they are cut into pieces. "
  "When a server closes a reused connection its question is asked again, unreachable servers are passed over as long as another one is there, and answers still go to whoever asked.",
  ["schedules", "fault_sequences", "histories", "inputs"],
  "every sequence of connection closes, resets, refusals, stalls and segmentations",
  "no test opens a connection to a server",
  ["tcpm.c", "socketpool.c", "socketpuller.c"],
  [("worker", "tcpm.c TcpM_Works"), ("sending", "tcpm.c TcpM_Send_Actual"), ("pool", "socketpool.c")])
p("D19", "Servers behind SOCKS5 proxies are asked only through them",
  "Questions to a TCP group with proxies are asked over connections made through one of its proxies to one of its servers (with a SOCKS5 request naming that server's address and port), never directly, and are then served as if the connection had been direct. "
  "However the proxy cuts its answers into pieces and whatever bound address it reports, nothing of them is taken for an answer; a proxy that refuses, fails or is gone is like an unreachable server, and others are used instead as long as there are any.",
  ["schedules", "inputs", "fault_sequences"],
  "every segmentation and every kind of answer and failure of the negotiation, at every point of a history with reused and closed connections",
  "no test has a proxy",
  ["tcpm.c"],
  [("negotiation", "tcpm.c TcpM_ProxyPreparation"), ("connecting", "tcpm.c TcpM_Connect"), ("sending", "tcpm.c TcpM_Send_Actual")])
p("D20", "No message, however malformed, harms the forwarder",
  "Whatever bytes clients and servers send, over UDP or TCP, the forwarder goes on serving: messages that cannot be read are dropped without any other effect, no memory outside of the buffers is read or written, and all other questions are answered as if the malformed message had not come. "
  "Messages that can be read but are unusual (bytes after the last record, unknown types and classes, strange counts, record sections in questions, very large ones) are treated like any others, and every reply the forwarder writes itself is a well-formed message.",
  ["inputs", "histories", "configurations"],
  "every sequence of bytes as question or as answer, among ordinary traffic and for every feature that looks into messages",
  "the messages that do harm are those no test samples; no test feeds any message to the program",
  ["dnsparser.c", "dnsgenerator.c", "iheader.c", "dnsrelated.c", "hostsutils.c", "dnscache.c"],
  [("validation", "dnsparser.c DNSIsWellFormed, iheader.c IHeader_Fill"), ("iterating", "dnsparser.c DnsSimpleParserIterator_Next"), ("generating", "dnsgenerator.c DnsGenerator_Init, DNSCompress")])
p("D23", "The way configuration and list files are written does not matter",
  "Blank lines, comments, indentation and trailing blanks, CRLF line ends, a missing end of the last line, any of the documented ways to write a switch, the separator after an option's name, the length of a line or list and the distribution of a list over several lines make no difference to what a configuration, group, hosts, filter or substitution file means. "
  "Unknown options and lines that are too long for a list file are ignored, and nothing else with them.",
  ["inputs", "configurations"],
  "every layout of every file, line lengths around and beyond every buffer included",
  "no test reads a configuration file",
  ["readline.c", "readconfig.c", "stringlist.c", "stablebuffer.c", "mmgr.c", "dynamichosts.c", "filter.c", "ipmisc.c"],
  [("lines", "readline.c ReadLine, ReadLine_GoToNextLine"), ("options", "readconfig.c ConfigRead, ParseString"), ("lists", "stringlist.c StringList_AppendLast, StringList_TrimAll")])
p("D24", "Parallel groups ask every server and use the first answer",
  "A question to a parallel group is sent once to every server of the group; the first acceptable answer is passed on and further ones are dropped, whichever servers stay silent.",
  ["schedules", "fault_sequences", "configurations"],
  "all orders of answers and silent servers, UDP and TCP",
  "no test has several servers",
  ["udpm.c", "tcpm.c", "addresslist.c"],
  [("sending", "udpm.c UdpM_Send, tcpm.c TcpM_Send_Actual")])
p("D26", "Good-address lists stand for an address that can be reached",
  "An IPv4 address question for a hosts name assigned to a good-address list is answered with exactly one address of that list. "
  "Once a list has been checked (immediately at the start, then at least once per interval), that is one that accepted a connection on its port when checked, if any did (addresses that refuse or do not react are not chosen while another one accepts); if none did, the list keeps standing for the address it stood for before.",
  ["fault_sequences", "schedules", "configurations"],
  "all histories of addresses that accept, refuse or do not react, several lists sharing addresses and names",
  "no test has any list",
  ["goodiplist.c", "hostsutils.c", "timedtask.c"],
  [("checking", "goodiplist.c CheckAList, ThreadJod"), ("answering", "goodiplist.c GoodIpList_Get, hostsutils.c HostsUtils_Generate")])

NA = {}
