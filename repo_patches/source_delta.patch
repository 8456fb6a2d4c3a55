From f9d9df2146750f792c4baad8c8b272d19776476c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:40 +0000
Subject: [PATCH 01/43] fix: match in-flight queries by identifier, name and
 type with a total order

The 32-bit hash subtraction is not a valid ordering, so entries could become
unreachable in the tree, and two queries differing only in type could be
answered with each other's response.
---
 mcontext.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mcontext.c b/mcontext.c
index 52aa723..c082173 100755
--- a/mcontext.c
+++ b/mcontext.c
@@ -124,8 +124,13 @@ static int ModuleContextCompare(const void *_1, const void *_2)
     if( Id_1 != Id_2 )
     {
         return Id_1 - Id_2;
+    } else if( One->HashValue != Two->HashValue ) {
+        /* Subtraction would overflow and break the ordering. */
+        return One->HashValue < Two->HashValue ? -1 : 1;
+    } else if( One->Type != Two->Type ) {
+        return One->Type < Two->Type ? -1 : 1;
     } else {
-        return One->HashValue - Two->HashValue;
+        return strcmp(One->Domain, Two->Domain);
     }
 }
 
-- 
2.43.0


From d2bf59933eeb0b47e257f536b3767d5812fce277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:43 +0000
Subject: [PATCH 02/43] fix: give every redirected query its own place and
 identity

Queries redirected by a CNAME hosts record were filed under the client's
identifier, name and type only, so answers could be handed to another client
asking the same thing, and a late answer could use a reused place.
---
 hosts.c    | 6 ++++++
 iheader.c  | 2 ++
 iheader.h  | 1 +
 mcontext.c | 2 ++
 4 files changed, 11 insertions(+)

diff --git a/hosts.c b/hosts.c
index 2da3fed..7f03fa8 100755
--- a/hosts.c
+++ b/hosts.c
@@ -231,6 +231,7 @@ Hosts_SocketLoop(void *Unused)
                 continue;
             }
 
+            InnerHeader->RecursedId = NewIdentifier;
             MsgCtxStored = Context.Add(&Context, InnerMsgCtx);
             if( MsgCtxStored == NULL )
             {
@@ -264,6 +265,11 @@ Hosts_SocketLoop(void *Unused)
 
             BackTraceHeader = OuterHeader->Parent;
             BackTraceMsgCtx = (MsgContext *)BackTraceHeader;
+            if( BackTraceHeader->RecursedId != DNSGetQueryIdentifier(OuterEntity) )
+            {
+                /* Too late, the place has been taken by another query. */
+                continue;
+            }
             DNSCopyQueryIdentifier(InnerHeader + 1, BackTraceHeader + 1);
             if( Context.GenAnswerHeaderAndRemove(&Context, BackTraceMsgCtx, InnerMsgCtx) != 0 )
             {
diff --git a/iheader.c b/iheader.c
index 497cd01..eda0c50 100755
--- a/iheader.c
+++ b/iheader.c
@@ -11,6 +11,7 @@ void IHeader_Reset(IHeader *h)
 {
     h->Parent = NULL;
     h->RequestTcp = FALSE;
+    h->RecursedId = 0;
     h->Agent[0] = '\0';
     h->BackAddress.family = AF_UNSPEC;
     h->Domain[0] = '\0';
@@ -33,6 +34,7 @@ int IHeader_Fill(IHeader *h,
 
     h->Parent = NULL;
     h->RequestTcp = FALSE;
+    h->RecursedId = 0;
     h->EDNSEnabled = FALSE;
 
     if( DnsSimpleParser_Init(&p, DnsEntity, EntityLength, FALSE) != 0 )
diff --git a/iheader.h b/iheader.h
index 3e447d9..9a24af8 100755
--- a/iheader.h
+++ b/iheader.h
@@ -13,6 +13,7 @@ typedef struct _MsgContext MsgContext;
 struct _IHeader{
     IHeader     *Parent;    /* Solve CNAME hosts records. */
     BOOL        RequestTcp; /* Parent is from TCP. */
+    uint16_t    RecursedId; /* Identifier of the query made to resolve this one, by CNAME hosts. */
     time_t      Timestamp;
 
     Address_Type    BackAddress;    /* UDP requires it while TCP doesn't */
diff --git a/mcontext.c b/mcontext.c
index c082173..6c82eb2 100755
--- a/mcontext.c
+++ b/mcontext.c
@@ -129,6 +129,8 @@ static int ModuleContextCompare(const void *_1, const void *_2)
         return One->HashValue < Two->HashValue ? -1 : 1;
     } else if( One->Type != Two->Type ) {
         return One->Type < Two->Type ? -1 : 1;
+    } else if( One->RecursedId != Two->RecursedId ) {
+        return (int)(One->RecursedId) - (int)(Two->RecursedId);
     } else {
         return strcmp(One->Domain, Two->Domain);
     }
-- 
2.43.0


From dbacd641557aaca97c7c80dbce685aa9df310a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:43 +0000
Subject: [PATCH 03/43] fix: do not reseed the generator on every lookup

All queries redirected within one second got the same identifier, because
matching a wildcard reset the generator to the current time.
---
 stringchunk.c | 1 -
 tcpm.c        | 1 -
 2 files changed, 2 deletions(-)

diff --git a/stringchunk.c b/stringchunk.c
index ddc6e8c..e65090b 100755
--- a/stringchunk.c
+++ b/stringchunk.c
@@ -290,7 +290,6 @@ BOOL StringChunk_Match_OnlyWildCard_GetOne(StringChunk  *dl,
 
     if( Array_GetUsed(pm) > 0 )
     {
-        srand(time(NULL));
         *Data = *((void **)Array_GetBySubscript(pm, rand() % Array_GetUsed(pm)));
     } else {
         *Data = NULL;
diff --git a/tcpm.c b/tcpm.c
index d0d4ed7..6155bab 100755
--- a/tcpm.c
+++ b/tcpm.c
@@ -177,7 +177,6 @@ static int TcpM_Connect(TcpM *m, int ServerIndex, BOOL IsProxy)
 
     TcpM_Connect_Recycle(Puller, Pullers);
 
-    srand(time(NULL));
     Shift = rand();
 
     idx = ServerIndex;
-- 
2.43.0


From 260a15710c41c90a81a747bec57c887268b7d605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:22 +0000
Subject: [PATCH 04/43] fix: drop malformed messages instead of processing them

A compression pointer leading to itself made a worker spin forever, truncated
records were read past the end, and a message whose question could not be
parsed was handled with the name of the previous one. Messages read from TCP
in several pieces were parsed with the length of the last piece.
---
 dnsparser.c   | 145 ++++++++++++++++++++++++++++++++++++++++++++++++++
 dnsparser.h   |   3 ++
 iheader.c     |   5 ++
 tcpfrontend.c |  26 +++++----
 tcpm.c        |  24 +++++----
 udpfrontend.c |  23 ++++----
 udpm.c        |  23 ++++----
 7 files changed, 211 insertions(+), 38 deletions(-)

diff --git a/dnsparser.c b/dnsparser.c
index 445e18c..26d339c 100755
--- a/dnsparser.c
+++ b/dnsparser.c
@@ -101,6 +101,151 @@ int DNSGetHostName(const char *DNSBody, int DNSBodyLength, const char *NameStart
     return LabelsLength;
 }
 
+/* Position after the name at Position, or -1 if it is not a valid name. A
+   compression pointer has to point backwards, so that it always ends.
+*/
+static int DNSCheckName(const unsigned char *Body, int BodyLength, int Position)
+{
+    int Start = Position;   /* where the current run of labels starts */
+    int Wire = 1;           /* uncompressed length */
+    int Length = -1;
+
+    while( TRUE )
+    {
+        int Label;
+
+        if( Position >= BodyLength )
+        {
+            return -1;
+        }
+
+        Label = Body[Position];
+
+        if( DNSIsLabelPointerStart(Label) )
+        {
+            int Target;
+
+            if( Position + 2 > BodyLength )
+            {
+                return -1;
+            }
+
+            Target = (Label & 0x3F) * 256 + Body[Position + 1];
+            if( Target >= Start )
+            {
+                return -1;
+            }
+
+            if( Length < 0 )
+            {
+                Length = Position + 2;
+            }
+
+            Start = Target;
+            Position = Target;
+        } else if( (Label & 0xC0) != 0 )
+        {
+            return -1;
+        } else if( Label == 0 )
+        {
+            return Length < 0 ? Position + 1 : Length;
+        } else {
+            Wire += Label + 1;
+            if( Wire > 255 )
+            {
+                return -1;
+            }
+            Position += Label + 1;
+        }
+    }
+}
+
+static BOOL DNSCheckData(const unsigned char *Body, int Position, int End, int Type)
+{
+    switch( Type )
+    {
+    case DNS_TYPE_A:
+        return End - Position == 4;
+
+    case DNS_TYPE_AAAA:
+        return End - Position == 16;
+
+    case DNS_TYPE_CNAME:
+    case DNS_TYPE_PTR:
+    case DNS_TYPE_NS:
+        return DNSCheckName(Body, End, Position) == End;
+
+    case DNS_TYPE_MX:
+        return DNSCheckName(Body, End, Position + 2) == End;
+
+    case DNS_TYPE_SOA:
+        Position = DNSCheckName(Body, End, Position);
+        return Position >= 0 &&
+               DNSCheckName(Body, End, Position) + 20 == End;
+
+    case DNS_TYPE_TXT:
+        while( Position < End )
+        {
+            Position += 1 + Body[Position];
+        }
+        return Position == End;
+
+    default:
+        return TRUE;
+    }
+}
+
+BOOL DNSIsWellFormed(const char *DNSBody, int DNSBodyLength)
+{
+    const unsigned char *Body = (const unsigned char *)DNSBody;
+    int Position = DNS_HEADER_LENGTH;
+    int Records;
+
+    if( DNSBodyLength < DNS_HEADER_LENGTH || DNSGetQuestionCount(DNSBody) != 1 )
+    {
+        return FALSE;
+    }
+
+    Position = DNSCheckName(Body, DNSBodyLength, Position);
+    if( Position < 0 || Position + 4 > DNSBodyLength )
+    {
+        return FALSE;
+    }
+    Position += 4;
+
+    Records = DNSGetAnswerCount(DNSBody) +
+              DNSGetNameServerCount(DNSBody) +
+              DNSGetAdditionalCount(DNSBody);
+
+    for( ; Records > 0; --Records )
+    {
+        int Type, Klass, End;
+
+        Position = DNSCheckName(Body, DNSBodyLength, Position);
+        if( Position < 0 || Position + 10 > DNSBodyLength )
+        {
+            return FALSE;
+        }
+
+        Type = Body[Position] * 256 + Body[Position + 1];
+        Klass = Body[Position + 2] * 256 + Body[Position + 3];
+        End = Position + 10 + Body[Position + 8] * 256 + Body[Position + 9];
+        if( End > DNSBodyLength )
+        {
+            return FALSE;
+        }
+
+        if( Klass == DNS_CLASS_IN && !DNSCheckData(Body, Position + 10, End, Type) )
+        {
+            return FALSE;
+        }
+
+        Position = End;
+    }
+
+    return TRUE;
+}
+
 char *GetAllAnswers(char *DNSBody, int DNSBodyLength, char *Buffer, int BufferLength)
 {
     DnsSimpleParser p;
diff --git a/dnsparser.h b/dnsparser.h
index 2d1f705..1ffcbd0 100755
--- a/dnsparser.h
+++ b/dnsparser.h
@@ -39,6 +39,9 @@ char *DNSJumpOverName(char *NameStart);
 
 int DNSGetHostName(const char *DNSBody, int DNSBodyLength, const char *NameStart, char *buffer, int BufferLength);
 
+/* Whether there is exactly one question, and everything it claims to have is in it. */
+BOOL DNSIsWellFormed(const char *DNSBody, int DNSBodyLength);
+
 int DNSGetHostNameLength(const char *DNSBody, int DNSBodyLength, const char *NameStart);
 
 #define DNSGetRecordType(rec_start_ptr)     ((rec_start_ptr) == NULL ? DNS_TYPE_UNKNOWN : GET_16_BIT_U_INT(DNSJumpOverName(rec_start_ptr)))
diff --git a/iheader.c b/iheader.c
index eda0c50..79bf188 100755
--- a/iheader.c
+++ b/iheader.c
@@ -37,6 +37,11 @@ int IHeader_Fill(IHeader *h,
     h->RecursedId = 0;
     h->EDNSEnabled = FALSE;
 
+    if( !DNSIsWellFormed(DnsEntity, EntityLength) )
+    {
+        return -26;
+    }
+
     if( DnsSimpleParser_Init(&p, DnsEntity, EntityLength, FALSE) != 0 )
     {
         return -31;
diff --git a/tcpfrontend.c b/tcpfrontend.c
index c8a0693..8cc2868 100644
--- a/tcpfrontend.c
+++ b/tcpfrontend.c
@@ -91,17 +91,21 @@ TcpFrontend_Work(void *Unused)
                 RecvState = recv(sock_c, Entity, TCPLength, 0);
                 if( RecvState == TCPLength )
                 {
-                    IHeader_Fill(Header,
-                                 FALSE,
-                                 Entity,
-                                 RecvState,
-                                 NULL,
-                                 sock_c,
-                                 ClientAddr->family,
-                                 Agent
-                                 );
-
-                    MMgr_Send(ReceiveBuffer, SOCKET_CONTEXT_LENGTH);
+                    if( IHeader_Fill(Header,
+                                     FALSE,
+                                     Entity,
+                                     RecvState,
+                                     NULL,
+                                     sock_c,
+                                     ClientAddr->family,
+                                     Agent
+                                     )
+                        == 0 )
+                    {
+                        MMgr_Send(ReceiveBuffer, SOCKET_CONTEXT_LENGTH);
+                    } else {
+                        INFO("Invalid data received from TCP client %s.\n", Agent);
+                    }
 
                     if( IsNewConnected )
                     {
diff --git a/tcpm.c b/tcpm.c
index 6155bab..9b20e8f 100755
--- a/tcpm.c
+++ b/tcpm.c
@@ -673,15 +673,21 @@ TcpM_Works(TcpM *m)
             TcpCtx->MsgCtx = NULL;
             p2->Add(p2, s, TcpCtx, sizeof(TcpContext));
 
-            IHeader_Fill(Header,
-                         FALSE,
-                         Entity,
-                         State,
-                         NULL,
-                         INVALID_SOCKET,
-                         AF_UNSPEC,
-                         NULL
-                         );
+            if( IHeader_Fill(Header,
+                             FALSE,
+                             Entity,
+                             PartialData - Entity,
+                             NULL,
+                             INVALID_SOCKET,
+                             AF_UNSPEC,
+                             NULL
+                             )
+                != 0 )
+            {
+                WARNING("TCP %s received bad data, len: %d.\n",
+                        m->SocksProxies != NULL ? "proxy" : "server", (int)(PartialData - Entity));
+                continue;
+            }
 
             switch( IPMiscMapping_Process(MsgCtx) )
             {
diff --git a/udpfrontend.c b/udpfrontend.c
index b4ef03e..28f44de 100755
--- a/udpfrontend.c
+++ b/udpfrontend.c
@@ -90,15 +90,20 @@ UdpFrontend_Work(void *Unused)
             continue;
         }
 
-        IHeader_Fill(Header,
-                     FALSE,
-                     Entity,
-                     RecvState,
-                     IncomingAddress,
-                     sock,
-                     *f,
-                     Agent
-                     );
+        if( IHeader_Fill(Header,
+                         FALSE,
+                         Entity,
+                         RecvState,
+                         IncomingAddress,
+                         sock,
+                         *f,
+                         Agent
+                         )
+            != 0 )
+        {
+            INFO("Invalid data received from UDP client %s.\n", Agent);
+            continue;
+        }
 
         MMgr_Send(ReceiveBuffer, SOCKET_CONTEXT_LENGTH);
     }
diff --git a/udpm.c b/udpm.c
index 627f56b..201869a 100755
--- a/udpm.c
+++ b/udpm.c
@@ -189,15 +189,20 @@ UdpM_Works(UdpM *m)
         m->CountOfTimeout = 0;
 
         /* Fill IHeader */
-        IHeader_Fill(Header,
-                     FALSE,
-                     Entity,
-                     RecvState,
-                     NULL,
-                     INVALID_SOCKET,
-                     AF_UNSPEC,
-                     NULL
-                     );
+        if( IHeader_Fill(Header,
+                         FALSE,
+                         Entity,
+                         RecvState,
+                         NULL,
+                         INVALID_SOCKET,
+                         AF_UNSPEC,
+                         NULL
+                         )
+            != 0 )
+        {
+            WARNING("UDP server received bad data, len: %d.\n", RecvState);
+            continue;
+        }
 
         switch( IPMiscMapping_Process(MsgCtx) )
         {
-- 
2.43.0


From 660652207ba9c4f9a860d3d4ee033f38752a8097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:41 +0000
Subject: [PATCH 05/43] fix: let replaced server groups deliver every answer
 they still wait for

After a reload the worker of a replaced group stopped at the first packet
it received, so all other queries in flight went unanswered.
---
 tcpm.c | 7 ++++++-
 udpm.c | 8 +++++++-
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/tcpm.c b/tcpm.c
index 9b20e8f..ab40f54 100755
--- a/tcpm.c
+++ b/tcpm.c
@@ -551,12 +551,14 @@ TcpM_Works(TcpM *m)
     TcpContext *TcpCtx;
 
     int NumberOfCumulated = 0;
+    BOOL Idle = FALSE;
 
     MsgCtx = (MsgContext *)ReceiveBuffer;
     Header = (IHeader *)ReceiveBuffer;
     Entity = ReceiveBuffer + sizeof(IHeader);
 
-    while( m->IsServer )
+    /* A replaced module still has to deliver what it is waiting for. */
+    while( m->IsServer || !Idle )
     {
         SOCKET  s;
         struct timeval TimeOut = TimeOut_Const;
@@ -572,9 +574,12 @@ TcpM_Works(TcpM *m)
             }
             m->Context.Sweep(&(m->Context), (SweepCallback)SweepWorks, m);
             NumberOfCumulated = 0;
+            Idle = TRUE;
             continue;
         }
 
+        Idle = FALSE;
+
         if( s == m->Incoming ) {
             int State;
 
diff --git a/udpm.c b/udpm.c
index 201869a..1b128a9 100755
--- a/udpm.c
+++ b/udpm.c
@@ -86,6 +86,8 @@ UdpM_Works(UdpM *m)
 
     fd_set  ReadSet, ReadySet;
 
+    BOOL    Idle = FALSE;
+
     /* Make analyzer happy. */
     FD_ZERO(&ReadSet);
 
@@ -93,7 +95,8 @@ UdpM_Works(UdpM *m)
     Header = (IHeader *)ReceiveBuffer;
     Entity = ReceiveBuffer + sizeof(IHeader);
 
-    while( m->IsServer )
+    /* A replaced module still has to deliver what it is waiting for. */
+    while( m->IsServer || !Idle )
     {
         int RecvState;
         int ContextState;
@@ -150,10 +153,12 @@ UdpM_Works(UdpM *m)
                 FD_CLR(m->Departure, &ReadSet);
                 CLOSE_SOCKET(m->Departure);
                 m->Departure = INVALID_SOCKET;
+                Idle = TRUE;
                 continue;
                 break;
 
             case 0:
+                Idle = TRUE;
                 #define RECREATION_THRESHOLD    8
                 if( m->CountOfTimeout > RECREATION_THRESHOLD )
                 {
@@ -167,6 +172,7 @@ UdpM_Works(UdpM *m)
                 break;
 
             default:
+                Idle = FALSE;
                 /* Goto recv job */
                 break;
         }
-- 
2.43.0


From f1ea3ccd4f6db08c6695c7f92484fb359be60e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:11 +0000
Subject: [PATCH 06/43] fix: do not free running server groups when a reload
 fails

A group file that cannot be loaded made the groups loaded before it be
freed under their running threads.
---
 mmgr.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/mmgr.c b/mmgr.c
index 6d93aa3..144f6b1 100755
--- a/mmgr.c
+++ b/mmgr.c
@@ -83,13 +83,14 @@ static ModuleInterface *StoreAModule(ModuleMap *ModuleMap)
         return NULL;
     }
 
+    memset(Added, 0, sizeof(ModuleInterface));
+    Added->ModuleName = "Unknown";
+
     if( Array_PushBack(ModuleMap->ModuleArray, &Added, NULL) < 0 )
     {
         return NULL;
     }
 
-    Added->ModuleName = "Unknown";
-
     return Added;
 }
 
@@ -666,6 +667,8 @@ static int Modules_Load(ConfigFileInfo *ConfigInfo)
         return -1;
     }
 
+    NewModuleMap->Modules = NULL;
+    NewModuleMap->ModuleArray = NULL;
     NewModuleMap->Distributor = NULL;
     if( InitChunk(&(NewModuleMap->Distributor)) != 0 )
     {
@@ -709,7 +712,11 @@ static int Modules_Load(ConfigFileInfo *ConfigInfo)
 
     if (ret)
     {
-        goto ModulesFree;
+        /* The modules loaded before the failure are already running. */
+        CREATE_THREAD(Modules_SafeCleanup, NewModuleMap, th);
+        DETACH_THREAD(th);
+        INFO("Loading GroupFile(s) failed.\n");
+        return ret;
     }
 
     RWLock_WrLock(ModulesLock);
-- 
2.43.0


From 3e9813d58585e2fa3432ee7035bb625101320e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:21 +0000
Subject: [PATCH 07/43] fix: free the list of proxies, not its first entry

Reloading a proxied TCP group crashed.
---
 tcpm.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tcpm.c b/tcpm.c
index ab40f54..e586d3b 100755
--- a/tcpm.c
+++ b/tcpm.c
@@ -516,7 +516,7 @@ static int TcpM_Cleanup(TcpM *m)
     {
         m->ProxyPuller.Free(&(m->ProxyPuller));
         SocketPullers_Free(m->Proxies);
-        SafeFree(*(m->SocksProxies));
+        SafeFree(m->SocksProxies);
         AddressList_Free(&(m->SocksProxyList));
         SafeFree(m->SocksProxyFamilies);
     }
@@ -909,7 +909,7 @@ int TcpM_Init(TcpM *m, const char *Services, BOOL Parallel, const char *SocksPro
 EXIT_9:
     m->ProxyPuller.FreeWithoutClose(&(m->ProxyPuller));
 EXIT_8:
-    SafeFree(*(m->SocksProxies));
+    SafeFree(m->SocksProxies);
 EXIT_7:
     AddressList_Free(&(m->SocksProxyList));
 
@@ -918,7 +918,7 @@ EXIT_6:
 EXIT_5:
     m->QueryPuller.FreeWithoutClose(&(m->QueryPuller));
 EXIT_4:
-    SafeFree(*(m->Services));
+    SafeFree(m->Services);
 
 EXIT_3:
     AddressList_Free(&(m->ServiceList));
-- 
2.43.0


From c4faffa280c0899729b155380cf877e8a4b58b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:28 +0000
Subject: [PATCH 08/43] fix: try the other TCP connections when one is dead

A server that refuses connections, or closed an idle one, swallowed the
query although other servers were reachable.
---
 tcpm.c | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/tcpm.c b/tcpm.c
index e586d3b..cfc6484 100755
--- a/tcpm.c
+++ b/tcpm.c
@@ -103,6 +103,10 @@ static SOCKET TcpM_Connect_GetAvailable(SocketPuller *p, TcpContext **TcpCtx)
             if( time(NULL) - (*TcpCtx)->LastActivity > TCPM_Keep_Alive ) {
                 INFO("Existing TCP connection expired, discard.\n");
                 CLOSE_SOCKET(s);
+            } else if( SocketIsStillReadable(s, 0) ) {
+                /* Nothing is expected on an idle connection but its end. */
+                INFO("Existing TCP connection closed, discard.\n");
+                CLOSE_SOCKET(s);
             } else {
                 break;
             }
@@ -389,7 +393,7 @@ static int TcpM_Send_Actual(TcpM *m, MsgContext *MsgCtx, int SingleServerIndex)
 
     SocketPuller *p;
     TcpContext *TcpCtx;
-    int i, NumOfServers, n = 0;
+    int Connections, NumOfServers, n = 0;
 
     IHeader *h = (IHeader *)MsgCtx;
     char *msg = (char *)(IHEADER_TAIL(h)) - 2;
@@ -414,12 +418,10 @@ static int TcpM_Send_Actual(TcpM *m, MsgContext *MsgCtx, int SingleServerIndex)
 
     DEBUG("Send to Pullers[%d].\n", SingleServerIndex);
 
-    if( TcpM_Connect(m, SingleServerIndex, FALSE) < 1 )
-    {
-        return 0;
-    }
+    Connections = TcpM_Connect(m, SingleServerIndex, FALSE);
 
-    for( i = 0; i < NumOfServers; ++i )
+    /* A connection that turns out to be dead is no reason to drop the query. */
+    for( ; Connections > 0 && n < NumOfServers; --Connections )
     {
         SOCKET s;
         int Err;
@@ -435,7 +437,7 @@ static int TcpM_Send_Actual(TcpM *m, MsgContext *MsgCtx, int SingleServerIndex)
                 break;
             }
             INFO("No %s TCP connection is established.\n", Type);
-            continue;
+            break;
         } else {
             p->Del(p, s);
         }
-- 
2.43.0


From b22a7d4a4196eaa0789dd95091e3196fbcac25dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:54 +0000
Subject: [PATCH 09/43] fix: receive from TCP servers and proxies whatever way
 the data is cut into pieces

---
 tcpm.c | 46 +++++++++++++++++++++++++++++++++++++---------
 1 file changed, 37 insertions(+), 9 deletions(-)

diff --git a/tcpm.c b/tcpm.c
index cfc6484..08f2ed3 100755
--- a/tcpm.c
+++ b/tcpm.c
@@ -287,6 +287,24 @@ static int TcpM_RecvWrapper(SOCKET Sock, char *Buffer, int BufferSize)
     return Recvlength;
 }
 
+/* The peer may send in pieces. */
+static int TcpM_RecvAll(SOCKET Sock, char *Buffer, int Length)
+{
+    int Received = 0;
+
+    while( Received < Length )
+    {
+        int State = TcpM_RecvWrapper(Sock, Buffer + Received, Length - Received);
+        if( State <= 0 )
+        {
+            return Received > 0 ? Received : State;
+        }
+        Received += State;
+    }
+
+    return Received;
+}
+
 static int TcpM_ProxyPreparation(SOCKET Sock,
                                  const struct sockaddr  *NestedAddress,
                                  sa_family_t Family
@@ -295,8 +313,9 @@ static int TcpM_ProxyPreparation(SOCKET Sock,
     char AddressInfos[4 + 1 + LENGTH_OF_IPV6_ADDRESS_ASCII + 2 + 1];
     char *AddressString = AddressInfos + 5;
     char NumberOfCharacter;
+    int BoundLength;
     unsigned short Port;
-    char RecvBuffer[16];
+    char RecvBuffer[UINT8_MAX + 2];
 
     DEBUG("Negotiating with TCP proxy ...\n");
 
@@ -306,7 +325,7 @@ static int TcpM_ProxyPreparation(SOCKET Sock,
         return -1;
     }
 
-    if( TcpM_RecvWrapper(Sock, RecvBuffer, 2) != 2 )
+    if( TcpM_RecvAll(Sock, RecvBuffer, 2) != 2 )
     {
         ERRORMSG("Cannot negotiate with TCP proxy.\n");
         return -2;
@@ -348,7 +367,7 @@ static int TcpM_ProxyPreparation(SOCKET Sock,
         return -4;
     }
 
-    if( TcpM_RecvWrapper(Sock, RecvBuffer, 4) != 4 )
+    if( TcpM_RecvAll(Sock, RecvBuffer, 4) != 4 )
     {
         ERRORMSG("Proxy Cannot communicate with TCP proxy.\n");
         return -9;
@@ -363,23 +382,32 @@ static int TcpM_ProxyPreparation(SOCKET Sock,
     switch( RecvBuffer[3] )
     {
         case 0x01:
-            NumberOfCharacter = 6;
+            BoundLength = 6;
             break;
 
         case 0x03:
-            TcpM_RecvWrapper(Sock, &NumberOfCharacter, 1);
-            NumberOfCharacter += 2;
+            if( TcpM_RecvAll(Sock, RecvBuffer, 1) != 1 )
+            {
+                ERRORMSG("Proxy Cannot communicate with TCP proxy.\n");
+                return -12;
+            }
+            BoundLength = (unsigned char)RecvBuffer[0] + 2;
             break;
 
         case 0x04:
-            NumberOfCharacter = 18;
+            BoundLength = 18;
             break;
 
         default:
             ERRORMSG("Proxy Cannot communicate with TCP proxy.\n");
             return -11;
     }
-    ClearTCPSocketBuffer(Sock, NumberOfCharacter);
+
+    if( TcpM_RecvAll(Sock, RecvBuffer, BoundLength) != BoundLength )
+    {
+        ERRORMSG("Proxy Cannot communicate with TCP proxy.\n");
+        return -13;
+    }
 
     INFO("Proxy has Connected to TCP server.\n");
 
@@ -627,7 +655,7 @@ TcpM_Works(TcpM *m)
 
             p->Del(p, s);
 
-            State = TcpM_RecvWrapper(s, (char *)&TCPLength, 2);
+            State = TcpM_RecvAll(s, (char *)&TCPLength, 2);
             if( State != 2 )
             {
                 if( State < 1 )
-- 
2.43.0


From 7197a34e3758e1b45923185d3ef08b73b179ef70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:09 +0000
Subject: [PATCH 10/43] fix: do not let one silent TCP client block all others

The frontend waited for the first query of a connection right after
accepting it.
---
 tcpfrontend.c | 30 ++++++++++--------------------
 1 file changed, 10 insertions(+), 20 deletions(-)

diff --git a/tcpfrontend.c b/tcpfrontend.c
index 8cc2868..9f846d9 100644
--- a/tcpfrontend.c
+++ b/tcpfrontend.c
@@ -36,7 +36,6 @@ TcpFrontend_Work(void *Unused)
     {
         SOCKET sock, sock_c;
         Address_Type *ClientAddr, ClientAddr_c;
-        BOOL IsNewConnected;
 
         int RecvState;
         uint16_t TCPLength;
@@ -67,12 +66,11 @@ TcpFrontend_Work(void *Unused)
                 continue;
             }
 
-            IsNewConnected = TRUE;
+            /* Its queries are received when they arrive: waiting for them
+               here would keep all other clients waiting. */
             ClientAddr_c.family = ClientAddr->family;
-            ClientAddr = &ClientAddr_c;
-        } else {
-            IsNewConnected = FALSE;
-            sock_c = sock;
+            Frontend.Add(&Frontend, sock_c, &ClientAddr_c, sizeof(Address_Type));
+            continue;
         }
 
         if( ClientAddr->family == AF_INET )
@@ -82,13 +80,13 @@ TcpFrontend_Work(void *Unused)
             IPv6AddressToAsc(&(((struct sockaddr_in6 *)ClientAddr)->sin6_addr), Agent);
         }
 
-        RecvState = recv(sock_c, (char *)&TCPLength, 2, 0);
+        RecvState = recv(sock, (char *)&TCPLength, 2, 0);
         if( RecvState == 2 )
         {
             TCPLength = ntohs(TCPLength);
             if( TCPLength <= LEFT_LENGTH )
             {
-                RecvState = recv(sock_c, Entity, TCPLength, 0);
+                RecvState = recv(sock, Entity, TCPLength, 0);
                 if( RecvState == TCPLength )
                 {
                     if( IHeader_Fill(Header,
@@ -96,7 +94,7 @@ TcpFrontend_Work(void *Unused)
                                      Entity,
                                      RecvState,
                                      NULL,
-                                     sock_c,
+                                     sock,
                                      ClientAddr->family,
                                      Agent
                                      )
@@ -107,11 +105,6 @@ TcpFrontend_Work(void *Unused)
                         INFO("Invalid data received from TCP client %s.\n", Agent);
                     }
 
-                    if( IsNewConnected )
-                    {
-                        Frontend.Add(&Frontend, sock_c, ClientAddr, sizeof(Address_Type));
-                    }
-
                     continue;
 
                 } else {
@@ -121,18 +114,15 @@ TcpFrontend_Work(void *Unused)
                 WARNING("TCP client %s segment is too large, discarded.\n", Agent);
             }
 
-            CLOSE_SOCKET(sock_c);
+            CLOSE_SOCKET(sock);
         } else if( RecvState == 1 )
         {
             INFO("Invalid data received from TCP client %s.\n", Agent);
-            CLOSE_SOCKET(sock_c);
+            CLOSE_SOCKET(sock);
         }
 
         /* recv failed */
-        if( IsNewConnected == FALSE )
-        {
-            Frontend.Del(&Frontend, sock_c);
-        }
+        Frontend.Del(&Frontend, sock);
     }
 
     SafeFree(ReceiveBuffer);
-- 
2.43.0


From c9ba45a969ed7ead6ac1feaf7940fa53471ecde6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:55 +0000
Subject: [PATCH 11/43] fix: reassemble queries of TCP clients that arrive in
 pieces

---
 tcpfrontend.c | 136 ++++++++++++++++++++++++++++++++------------------
 1 file changed, 87 insertions(+), 49 deletions(-)

diff --git a/tcpfrontend.c b/tcpfrontend.c
index 9f846d9..218d6ce 100644
--- a/tcpfrontend.c
+++ b/tcpfrontend.c
@@ -1,3 +1,4 @@
+#include <string.h>
 #include "tcpfrontend.h"
 #include "socketpuller.h"
 #include "addresslist.h"
@@ -7,8 +8,25 @@
 
 extern BOOL Ipv6_Enabled;
 
+#define LEFT_LENGTH  (SOCKET_CONTEXT_LENGTH - sizeof(IHeader))
+
+typedef struct _TcpClient {
+    Address_Type    Address; /* `AF_UNSPEC' in it: a listening socket */
+    int             Received;
+    char            *Buffer; /* A message that has not arrived completely, with its length */
+} TcpClient;
+
 static SocketPuller Frontend;
 
+static int TcpFrontend_MessageLength(const TcpClient *Client)
+{
+    uint16_t Length;
+
+    memcpy(&Length, Client->Buffer, sizeof(Length));
+
+    return ntohs(Length);
+}
+
 static void
 #ifdef WIN32
 WINAPI
@@ -18,7 +36,6 @@ TcpFrontend_Work(void *Unused)
     char *ReceiveBuffer;
     IHeader *Header;
 
-    #define LEFT_LENGTH  (SOCKET_CONTEXT_LENGTH - sizeof(IHeader))
     char *Entity;
 
     ReceiveBuffer = SafeMalloc(SOCKET_CONTEXT_LENGTH);
@@ -34,17 +51,16 @@ TcpFrontend_Work(void *Unused)
     /* Loop */
     while( TRUE )
     {
-        SOCKET sock, sock_c;
-        Address_Type *ClientAddr, ClientAddr_c;
+        SOCKET sock;
+        TcpClient *Client;
 
-        int RecvState;
-        uint16_t TCPLength;
+        int RecvState, Wanted;
 
         char Agent[sizeof(Header->Agent)];
 
         sock = Frontend.Select(&Frontend,
                                NULL,
-                               (void **)&ClientAddr,
+                               (void **)&Client,
                                TRUE,
                                FALSE,
                                NULL
@@ -56,11 +72,13 @@ TcpFrontend_Work(void *Unused)
             break;
         }
 
-        if( ((struct sockaddr *)ClientAddr)->sa_family == AF_UNSPEC )
+        if( ((struct sockaddr *)&(Client->Address))->sa_family == AF_UNSPEC )
         {
-            socklen_t AddrLen = sizeof(Address_Type);
+            TcpClient NewClient;
+            socklen_t AddrLen = sizeof(NewClient.Address.Addr);
+            SOCKET sock_c;
 
-            sock_c = accept(sock, (struct sockaddr *)&(ClientAddr_c.Addr), &AddrLen);
+            sock_c = accept(sock, (struct sockaddr *)&(NewClient.Address.Addr), &AddrLen);
             if(sock_c == INVALID_SOCKET)
             {
                 continue;
@@ -68,60 +86,79 @@ TcpFrontend_Work(void *Unused)
 
             /* Its queries are received when they arrive: waiting for them
                here would keep all other clients waiting. */
-            ClientAddr_c.family = ClientAddr->family;
-            Frontend.Add(&Frontend, sock_c, &ClientAddr_c, sizeof(Address_Type));
+            NewClient.Address.family = Client->Address.family;
+            NewClient.Received = 0;
+            NewClient.Buffer = SafeMalloc(sizeof(uint16_t) + LEFT_LENGTH);
+            if( NewClient.Buffer == NULL )
+            {
+                CLOSE_SOCKET(sock_c);
+                continue;
+            }
+
+            Frontend.Add(&Frontend, sock_c, &NewClient, sizeof(TcpClient));
             continue;
         }
 
-        if( ClientAddr->family == AF_INET )
+        if( Client->Address.family == AF_INET )
         {
-            IPv4AddressToAsc(&(((struct sockaddr_in *)ClientAddr)->sin_addr), Agent);
+            IPv4AddressToAsc(&(Client->Address.Addr.Addr4.sin_addr), Agent);
         } else {
-            IPv6AddressToAsc(&(((struct sockaddr_in6 *)ClientAddr)->sin6_addr), Agent);
+            IPv6AddressToAsc(&(Client->Address.Addr.Addr6.sin6_addr), Agent);
         }
 
-        RecvState = recv(sock, (char *)&TCPLength, 2, 0);
-        if( RecvState == 2 )
+        /* Receive the rest of the length, or else the rest of the message. */
+        Wanted = sizeof(uint16_t);
+        if( Client->Received >= Wanted )
         {
-            TCPLength = ntohs(TCPLength);
-            if( TCPLength <= LEFT_LENGTH )
+            Wanted += TcpFrontend_MessageLength(Client);
+        }
+
+        RecvState = recv(sock, Client->Buffer + Client->Received, Wanted - Client->Received, 0);
+        if( RecvState > 0 )
+        {
+            Client->Received += RecvState;
+
+            if( Client->Received == sizeof(uint16_t) )
             {
-                RecvState = recv(sock, Entity, TCPLength, 0);
-                if( RecvState == TCPLength )
-                {
-                    if( IHeader_Fill(Header,
-                                     FALSE,
-                                     Entity,
-                                     RecvState,
-                                     NULL,
-                                     sock,
-                                     ClientAddr->family,
-                                     Agent
-                                     )
-                        == 0 )
-                    {
-                        MMgr_Send(ReceiveBuffer, SOCKET_CONTEXT_LENGTH);
-                    } else {
-                        INFO("Invalid data received from TCP client %s.\n", Agent);
-                    }
+                int TCPLength = TcpFrontend_MessageLength(Client);
 
+                if( TCPLength > 0 && TCPLength <= LEFT_LENGTH )
+                {
                     continue;
+                }
+
+                WARNING("TCP client %s segment is empty or too large, discarded.\n", Agent);
+                CLOSE_SOCKET(sock);
 
+            } else if( Client->Received < Wanted ) {
+                continue;
+
+            } else {
+                Client->Received = 0;
+                memcpy(Entity, Client->Buffer + sizeof(uint16_t), Wanted - sizeof(uint16_t));
+
+                if( IHeader_Fill(Header,
+                                 FALSE,
+                                 Entity,
+                                 Wanted - sizeof(uint16_t),
+                                 NULL,
+                                 sock,
+                                 Client->Address.family,
+                                 Agent
+                                 )
+                    == 0 )
+                {
+                    MMgr_Send(ReceiveBuffer, SOCKET_CONTEXT_LENGTH);
                 } else {
                     INFO("Invalid data received from TCP client %s.\n", Agent);
                 }
-            } else {
-                WARNING("TCP client %s segment is too large, discarded.\n", Agent);
-            }
 
-            CLOSE_SOCKET(sock);
-        } else if( RecvState == 1 )
-        {
-            INFO("Invalid data received from TCP client %s.\n", Agent);
-            CLOSE_SOCKET(sock);
+                continue;
+            }
         }
 
         /* recv failed */
+        SafeFree(Client->Buffer);
         Frontend.Del(&Frontend, sock);
     }
 
@@ -161,14 +198,15 @@ int TcpFrontend_Init(ConfigFileInfo *ConfigInfo, BOOL StartWork)
         return -20;
     }
 
-    if( SocketPuller_Init(&Frontend, sizeof(Address_Type)) != 0 )
+    if( SocketPuller_Init(&Frontend, sizeof(TcpClient)) != 0 )
     {
         return -19;
     }
 
     while( (One = i.Next(&i)) != NULL )
     {
-        Address_Type a, ClientAddr;
+        Address_Type a;
+        TcpClient Listener;
         sa_family_t f;
 
         SOCKET sock;
@@ -213,9 +251,9 @@ int TcpFrontend_Init(ConfigFileInfo *ConfigInfo, BOOL StartWork)
             Ipv6_Enabled = TRUE;
         }
 
-        memset(&ClientAddr, 0, sizeof(Address_Type));
-        ClientAddr.family = f;
-        Frontend.Add(&Frontend, sock, &ClientAddr, sizeof(Address_Type));
+        memset(&Listener, 0, sizeof(TcpClient));
+        Listener.Address.family = f;
+        Frontend.Add(&Frontend, sock, &Listener, sizeof(TcpClient));
         INFO("TCP interface %s opened.\n", One);
         ++Count;
     }
-- 
2.43.0


From e88f18db990ceafc7c7405fd52e3065c53940dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:41 +0000
Subject: [PATCH 12/43] fix: answer PTR and NS questions from the cache with
 records of that type

---
 dnsgenerator.c | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/dnsgenerator.c b/dnsgenerator.c
index 7089b99..b202d1c 100755
--- a/dnsgenerator.c
+++ b/dnsgenerator.c
@@ -268,11 +268,13 @@ static int DnsGenerator_Question(DnsGenerator *g,
     return 0;
 }
 
-static int DnsGenerator_CName(DnsGenerator *g,
-                              const char *Name,
-                              const char *CName,
-                              int Ttl
-                              )
+/* A record whose data is a domain name */
+static int DnsGenerator_NameRecord(DnsGenerator *g,
+                                   const char *Name,
+                                   DNSRecordType Type,
+                                   const char *CName,
+                                   int Ttl
+                                   )
 {
     DnsRecordPurpose p = DnsGenerator_CurrentPurpose(g);
 
@@ -289,7 +291,7 @@ static int DnsGenerator_CName(DnsGenerator *g,
         return -1;
     }
 
-    if( DnsGenerator_16Uint(g, DNS_TYPE_CNAME) != 0 )
+    if( DnsGenerator_16Uint(g, Type) != 0 )
     {
         return -2;
     }
@@ -321,6 +323,15 @@ static int DnsGenerator_CName(DnsGenerator *g,
     return 0;
 }
 
+static int DnsGenerator_CName(DnsGenerator *g,
+                              const char *Name,
+                              const char *CName,
+                              int Ttl
+                              )
+{
+    return DnsGenerator_NameRecord(g, Name, DNS_TYPE_CNAME, CName, Ttl);
+}
+
 static int DnsGenerator_MX(DnsGenerator *g,
                            const char *Name,
                            int Preference,
@@ -854,7 +865,7 @@ static int DnsGenerator_Generate(DnsGenerator *g,
     case DNS_TYPE_CNAME:
     case DNS_TYPE_PTR:
     case DNS_TYPE_NS:
-        Ret = g->CName(g, Name, Data, Ttl);
+        Ret = DnsGenerator_NameRecord(g, Name, Type, Data, Ttl);
         break;
 
     case DNS_TYPE_MX:
-- 
2.43.0


From 6a40184615cd02c369d1c1b33a513ca920594dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:56 +0000
Subject: [PATCH 13/43] fix: do not write past the reply when a cached record
 does not fit

---
 dnsgenerator.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/dnsgenerator.c b/dnsgenerator.c
index b202d1c..e574b08 100755
--- a/dnsgenerator.c
+++ b/dnsgenerator.c
@@ -587,6 +587,11 @@ static int DnsGenerator_RawData(DnsGenerator *g,
         return -5;
     }
 
+    if( LEFT_LENGTH(g) < DataLength )
+    {
+        return -6;
+    }
+
     memcpy(g->Itr, Data, DataLength);
     g->Itr += DataLength;
 
@@ -852,6 +857,7 @@ static int DnsGenerator_Generate(DnsGenerator *g,
                                  )
 {
     int Ret = -256;
+    char *Start = g->Itr;
 
     switch( Type )
     {
@@ -876,6 +882,12 @@ static int DnsGenerator_Generate(DnsGenerator *g,
         break;
     }
 
+    if( Ret != 0 )
+    {
+        /* No part of a record */
+        g->Itr = Start;
+    }
+
     return Ret;
 }
 
-- 
2.43.0


From a9f43e0add076ff4914957fb28f85c90249bff06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:02 +0000
Subject: [PATCH 14/43] fix: keep the owner names of records outside the alias
 chain of an answer

---
 dnsgenerator.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/dnsgenerator.c b/dnsgenerator.c
index e574b08..2a0d2f1 100755
--- a/dnsgenerator.c
+++ b/dnsgenerator.c
@@ -39,6 +39,10 @@ int DNSCompress(__inout char *DNSBody, __in int DNSBodyLength)
     char *LastName;
     char *CurrentName;
 
+    /* What `LastName' and `CurrentName' say */
+    char Last[256];
+    char Current[256];
+
     if( DnsSimpleParser_Init(&p, DNSBody, DNSBodyLength, FALSE) != 0 )
     {
         return -1;
@@ -67,6 +71,18 @@ int DNSCompress(__inout char *DNSBody, __in int DNSBodyLength)
             continue;
         }
 
+        /* Owned by another name, not part of the chain of aliases.
+           "a" is what the generators write for the last name.
+        */
+        if( i.GetName(&i, Current, sizeof(Current)) >= 0 &&
+            DNSGetHostName(p.RawDns, p.RawDnsLength, LastName, Last, sizeof(Last)) >= 0 &&
+            strcmp(Current, "a") != 0 &&
+            strcasecmp(Current, Last) != 0
+            )
+        {
+            continue;
+        }
+
         /* Compressing stage */
         LengthDifference = i.GetName(&i, NULL, 0) -
                            2 /* 2 is the pointer length */
-- 
2.43.0


From 533337fd7f37cc883c7356e631632acabe395636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:14 +0000
Subject: [PATCH 15/43] fix: look up CacheControl rules by the name of the
 record

---
 dnscache.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/dnscache.c b/dnscache.c
index 288d9f5..ca4a10a 100755
--- a/dnscache.c
+++ b/dnscache.c
@@ -472,6 +472,9 @@ static int DNSCache_AddAItemToCache(DnsSimpleParserIterator *i,
 
     const CtrlContent   *TtlContent;
 
+    /* The name alone */
+    char            Name[sizeof(Buffer)];
+
     /* Assign start byte of the cache */
     Buffer[0] = CACHE_START;
 
@@ -481,6 +484,9 @@ static int DNSCache_AddAItemToCache(DnsSimpleParserIterator *i,
         return -1;
     }
 
+    strcpy(Name, Item);
+    StrToLower(Name);
+
     /* Jump just over the name, right at '\0' */
     BufferItr = Item + strlen(Item);
     if( BufferItr >= Buffer + sizeof(Buffer) )
@@ -551,7 +557,7 @@ static int DNSCache_AddAItemToCache(DnsSimpleParserIterator *i,
                     break;
 
                 case TTL_CTRL_INFECTION_PASSIVLY:
-                    TtlContent = CacheTtlCrtl_Get(TtlCtrl, Item);
+                    TtlContent = CacheTtlCrtl_Get(TtlCtrl, Name);
                     if( TtlContent == NULL )
                     {
                         TtlContent = InfectedTtlContent;
@@ -559,11 +565,11 @@ static int DNSCache_AddAItemToCache(DnsSimpleParserIterator *i,
                     break;
 
                 case TTL_CTRL_INFECTION_NONE:
-                    TtlContent = CacheTtlCrtl_Get(TtlCtrl, Item);
+                    TtlContent = CacheTtlCrtl_Get(TtlCtrl, Name);
                     break;
             }
         } else {
-            TtlContent = CacheTtlCrtl_Get(TtlCtrl, Item);
+            TtlContent = CacheTtlCrtl_Get(TtlCtrl, Name);
         }
 
         if( TtlContent != NULL )
-- 
2.43.0


From e55cf3ac90bcee337c4164bd52b88ed131c36e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:49 +0000
Subject: [PATCH 16/43] fix: find every network that contains an address,
 overlapping ones too

---
 ipchunk.c | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/ipchunk.c b/ipchunk.c
index ee4396c..559a2d6 100755
--- a/ipchunk.c
+++ b/ipchunk.c
@@ -170,7 +170,13 @@ static int Contain(IpElement *New, IpElement *Elm)
         int prefixBitsElm = ipSetElm->PrefixBits;
         int ret = 0;
 
-        /* 2nd: prefix value */
+        /* 2nd: prefix bits */
+        if( prefixBitsNew != prefixBitsElm )
+        {
+            return prefixBitsNew - prefixBitsElm;
+        }
+
+        /* 3rd: prefix value */
         if( BitsElm == 32 )
         {
             bn += 12;
@@ -194,12 +200,6 @@ static int Contain(IpElement *New, IpElement *Elm)
             ret = memcmp(&u32New, &u32Elm, 4);
         }
 
-        /* 3rd: prefix bits */
-        if( ret == 0 && prefixBitsNew < prefixBitsElm)
-        {
-            ret = 1;
-        }
-
         /* 4th: zone */
         if( ret == 0 )
         {
@@ -339,7 +339,9 @@ BOOL IpChunk_Find(IpChunk *ic, unsigned char *Ip, int IpBytes, int *Type, const
     Key.Data = NULL;
 
     Result = ic->AddrChunk.Search(&(ic->AddrChunk), &Key, NULL);
-    if( Result == NULL )
+
+    /* The most specific network that contains it */
+    while( Result == NULL && --Key.IpSet.PrefixBits >= 0 )
     {
         Result = ic->CidrChunk.Search(&(ic->CidrChunk), &Key, NULL);
     }
-- 
2.43.0


From 4e2c259c8bd5691adf8456e68bd2024237e51b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:12 +0000
Subject: [PATCH 17/43] fix: let replaced groups wait a whole timeout for their
 last answers

A timeout that began before the group was replaced ended its worker at once,
and answers to questions sent moments before were lost.
---
 tcpm.c | 3 ++-
 udpm.c | 5 ++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/tcpm.c b/tcpm.c
index 08f2ed3..c83b812 100755
--- a/tcpm.c
+++ b/tcpm.c
@@ -592,6 +592,7 @@ TcpM_Works(TcpM *m)
     {
         SOCKET  s;
         struct timeval TimeOut = TimeOut_Const;
+        BOOL Serving = m->IsServer;
 
         s = p->Select(p, &TimeOut, (void **)&TcpCtx, TRUE, FALSE, &Err);
 
@@ -604,7 +605,7 @@ TcpM_Works(TcpM *m)
             }
             m->Context.Sweep(&(m->Context), (SweepCallback)SweepWorks, m);
             NumberOfCumulated = 0;
-            Idle = TRUE;
+            Idle = !Serving; /* Only silence after being replaced counts. */
             continue;
         }
 
diff --git a/udpm.c b/udpm.c
index 1b128a9..21a7fc7 100755
--- a/udpm.c
+++ b/udpm.c
@@ -87,6 +87,7 @@ UdpM_Works(UdpM *m)
     fd_set  ReadSet, ReadySet;
 
     BOOL    Idle = FALSE;
+    BOOL    Serving;
 
     /* Make analyzer happy. */
     FD_ZERO(&ReadSet);
@@ -144,6 +145,7 @@ UdpM_Works(UdpM *m)
             FD_SET(m->Departure, &ReadSet);
         }
 
+        Serving = m->IsServer;
         ReadySet = ReadSet;
         Timeout = ShortTime;
         switch( select(m->Departure + 1, &ReadySet, NULL, NULL, &Timeout) )
@@ -158,7 +160,8 @@ UdpM_Works(UdpM *m)
                 break;
 
             case 0:
-                Idle = TRUE;
+                /* Only silence after being replaced counts. */
+                Idle = !Serving;
                 #define RECREATION_THRESHOLD    8
                 if( m->CountOfTimeout > RECREATION_THRESHOLD )
                 {
-- 
2.43.0


From 6c8ed781bf110751efe85acf08424babbcba69d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:10 +0000
Subject: [PATCH 18/43] fix: close the connections of TCP clients that have
 left

They were never closed: the program ran out of descriptors, or wrote behind
its descriptor sets, after about a thousand TCP clients. Answers still under
way check that the socket is still the asking client's.
---
 iheader.c      | 15 +++++++++
 socketpuller.c |  7 ++++
 tcpfrontend.c  | 86 +++++++++++++++++++++++++++++++++++++++++++++++---
 3 files changed, 103 insertions(+), 5 deletions(-)

diff --git a/iheader.c b/iheader.c
index 79bf188..472fc5b 100755
--- a/iheader.c
+++ b/iheader.c
@@ -163,6 +163,16 @@ BOOL MsgContext_IsFromTCP(const MsgContext *MsgCtx)
     return (h->BackAddress.family == AF_UNSPEC);
 }
 
+/* The socket may belong to another client by now. */
+static BOOL MsgContext_IsClientConnected(const IHeader *h)
+{
+    Address_Type Peer;
+    socklen_t Length = sizeof(Peer.Addr);
+
+    return getpeername(h->SendBackSocket, (struct sockaddr *)&(Peer.Addr), &Length) == 0 &&
+           memcmp(&(Peer.Addr), &(h->BackAddress.Addr), Length) == 0;
+}
+
 int MsgContext_SendBack(MsgContext *MsgCtx)
 {
     IHeader *h = (IHeader *)MsgCtx;
@@ -175,6 +185,11 @@ int MsgContext_SendBack(MsgContext *MsgCtx)
         Content -= 2;
         Length += 2;
 
+        if( !MsgContext_IsClientConnected(h) )
+        {
+            return -107;
+        }
+
         DNSSetTcpLength(Content, h->EntityLength);
 
         if( send(h->SendBackSocket,
diff --git a/socketpuller.c b/socketpuller.c
index ce0c9b4..276a344 100755
--- a/socketpuller.c
+++ b/socketpuller.c
@@ -11,6 +11,13 @@ PUBFUNC int SocketPuller_Add(SocketPuller *p,
         return -11;
     }
 
+#ifndef _WIN32
+    if( s >= FD_SETSIZE )
+    {
+        return -13;
+    }
+#endif
+
     if( p->p.Add(&(p->p), s, Data, DataLength) != 0 )
     {
         return -16;
diff --git a/tcpfrontend.c b/tcpfrontend.c
index 218d6ce..46e46da 100644
--- a/tcpfrontend.c
+++ b/tcpfrontend.c
@@ -8,6 +8,10 @@
 
 extern BOOL Ipv6_Enabled;
 
+#ifndef SHUT_RDWR
+    #define SHUT_RDWR   SD_BOTH
+#endif
+
 #define LEFT_LENGTH  (SOCKET_CONTEXT_LENGTH - sizeof(IHeader))
 
 typedef struct _TcpClient {
@@ -18,6 +22,58 @@ typedef struct _TcpClient {
 
 static SocketPuller Frontend;
 
+/* Clients that send nothing more. They may still be waiting for answers, so
+   their connections are closed after a while, the oldest one first. */
+#define LEAVING_TIME    20
+#define LEAVING_MAX     128
+
+static struct {
+    SOCKET  Socket;
+    time_t  Since;
+} Leaving[LEAVING_MAX];
+
+static int LeavingFirst = 0;
+static int LeavingCount = 0;
+
+static BOOL TcpFrontend_CloseOldest(void)
+{
+    if( LeavingCount == 0 )
+    {
+        return FALSE;
+    }
+
+    CLOSE_SOCKET(Leaving[LeavingFirst].Socket);
+    LeavingFirst = (LeavingFirst + 1) % LEAVING_MAX;
+    --LeavingCount;
+
+    return TRUE;
+}
+
+static void TcpFrontend_CloseExpired(void)
+{
+    time_t Now = time(NULL);
+
+    while( LeavingCount > 0 && Now - Leaving[LeavingFirst].Since > LEAVING_TIME )
+    {
+        TcpFrontend_CloseOldest();
+    }
+}
+
+static void TcpFrontend_Leave(SOCKET sock)
+{
+    int i;
+
+    if( LeavingCount == LEAVING_MAX )
+    {
+        TcpFrontend_CloseOldest();
+    }
+
+    i = (LeavingFirst + LeavingCount) % LEAVING_MAX;
+    Leaving[i].Socket = sock;
+    Leaving[i].Since = time(NULL);
+    ++LeavingCount;
+}
+
 static int TcpFrontend_MessageLength(const TcpClient *Client)
 {
     uint16_t Length;
@@ -54,20 +110,28 @@ TcpFrontend_Work(void *Unused)
         SOCKET sock;
         TcpClient *Client;
 
-        int RecvState, Wanted;
+        int RecvState, Wanted, Err;
+        struct timeval TimeOut = {LEAVING_TIME, 0};
 
         char Agent[sizeof(Header->Agent)];
 
         sock = Frontend.Select(&Frontend,
-                               NULL,
+                               LeavingCount > 0 ? &TimeOut : NULL,
                                (void **)&Client,
                                TRUE,
                                FALSE,
-                               NULL
+                               &Err
                                );
 
+        TcpFrontend_CloseExpired();
+
         if( sock == INVALID_SOCKET )
         {
+            if( Err == 0 )
+            {
+                continue;
+            }
+
             ERRORMSG("Fatal error 58.\n");
             break;
         }
@@ -81,6 +145,11 @@ TcpFrontend_Work(void *Unused)
             sock_c = accept(sock, (struct sockaddr *)&(NewClient.Address.Addr), &AddrLen);
             if(sock_c == INVALID_SOCKET)
             {
+                /* There may be no more sockets. */
+                if( !TcpFrontend_CloseOldest() )
+                {
+                    SLEEP(10);
+                }
                 continue;
             }
 
@@ -95,7 +164,12 @@ TcpFrontend_Work(void *Unused)
                 continue;
             }
 
-            Frontend.Add(&Frontend, sock_c, &NewClient, sizeof(TcpClient));
+            if( Frontend.Add(&Frontend, sock_c, &NewClient, sizeof(TcpClient)) != 0 )
+            {
+                SafeFree(NewClient.Buffer);
+                CLOSE_SOCKET(sock_c);
+                TcpFrontend_CloseOldest();
+            }
             continue;
         }
 
@@ -128,7 +202,7 @@ TcpFrontend_Work(void *Unused)
                 }
 
                 WARNING("TCP client %s segment is empty or too large, discarded.\n", Agent);
-                CLOSE_SOCKET(sock);
+                shutdown(sock, SHUT_RDWR);
 
             } else if( Client->Received < Wanted ) {
                 continue;
@@ -148,6 +222,7 @@ TcpFrontend_Work(void *Unused)
                                  )
                     == 0 )
                 {
+                    Header->BackAddress.Addr = Client->Address.Addr;
                     MMgr_Send(ReceiveBuffer, SOCKET_CONTEXT_LENGTH);
                 } else {
                     INFO("Invalid data received from TCP client %s.\n", Agent);
@@ -160,6 +235,7 @@ TcpFrontend_Work(void *Unused)
         /* recv failed */
         SafeFree(Client->Buffer);
         Frontend.Del(&Frontend, sock);
+        TcpFrontend_Leave(sock);
     }
 
     SafeFree(ReceiveBuffer);
-- 
2.43.0


From 71688397cc936d2b40d8be85fc2470c9cd2470fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:40 +0000
Subject: [PATCH 19/43] fix: do not wait for a TCP client that does not receive
 its answers

Its connection's buffers full, the thread that answers would wait forever,
and with it all other clients.
---
 common.h      |  3 +++
 iheader.c     | 21 +++++++++++++++------
 tcpfrontend.c | 12 +++++++-----
 3 files changed, 25 insertions(+), 11 deletions(-)

diff --git a/common.h b/common.h
index 8b17fb1..e81b774 100755
--- a/common.h
+++ b/common.h
@@ -54,6 +54,9 @@
 
     /* Close a socket */
     #define CLOSE_SOCKET(s) (closesocket(s))
+    #ifndef SHUT_RDWR
+        #define SHUT_RDWR   SD_BOTH
+    #endif
 
     /* Threading */
     #define CREATE_THREAD(func_ptr, para_ptr, result_holder)    (result_holder) = CreateThread(NULL, 0, (LPTHREAD_START_ROUTINE)(func_ptr), (para_ptr), 0, NULL);
diff --git a/iheader.c b/iheader.c
index 472fc5b..4247e93 100755
--- a/iheader.c
+++ b/iheader.c
@@ -178,6 +178,7 @@ int MsgContext_SendBack(MsgContext *MsgCtx)
     IHeader *h = (IHeader *)MsgCtx;
     char *Content = (char *)(IHEADER_TAIL(h));
     int Length = h->EntityLength;
+    int State;
 
     if( MsgContext_IsFromTCP(MsgCtx) )
     {
@@ -192,13 +193,21 @@ int MsgContext_SendBack(MsgContext *MsgCtx)
 
         DNSSetTcpLength(Content, h->EntityLength);
 
-        if( send(h->SendBackSocket,
-                 Content,
-                 Length,
-                 MSG_NOSIGNAL
-                 )
-            != Length )
+        /* Never waits for a client that does not receive. */
+        State = send(h->SendBackSocket,
+                     Content,
+                     Length,
+                     MSG_NOSIGNAL
+                     );
+
+        if( State != Length )
         {
+            if( State > 0 )
+            {
+                /* The rest of the stream would be misread. */
+                shutdown(h->SendBackSocket, SHUT_RDWR);
+            }
+
             /** TODO: Show error */
             return -112;
         }
diff --git a/tcpfrontend.c b/tcpfrontend.c
index 46e46da..eb956b1 100644
--- a/tcpfrontend.c
+++ b/tcpfrontend.c
@@ -8,10 +8,6 @@
 
 extern BOOL Ipv6_Enabled;
 
-#ifndef SHUT_RDWR
-    #define SHUT_RDWR   SD_BOTH
-#endif
-
 #define LEFT_LENGTH  (SOCKET_CONTEXT_LENGTH - sizeof(IHeader))
 
 typedef struct _TcpClient {
@@ -158,8 +154,9 @@ TcpFrontend_Work(void *Unused)
             NewClient.Address.family = Client->Address.family;
             NewClient.Received = 0;
             NewClient.Buffer = SafeMalloc(sizeof(uint16_t) + LEFT_LENGTH);
-            if( NewClient.Buffer == NULL )
+            if( NewClient.Buffer == NULL || SetSocketNonBlock(sock_c, TRUE) != 0 )
             {
+                SafeFree(NewClient.Buffer);
                 CLOSE_SOCKET(sock_c);
                 continue;
             }
@@ -188,6 +185,11 @@ TcpFrontend_Work(void *Unused)
         }
 
         RecvState = recv(sock, Client->Buffer + Client->Received, Wanted - Client->Received, 0);
+        if( RecvState < 0 && FatalErrorDecideding(GET_LAST_ERROR()) == 0 )
+        {
+            continue;
+        }
+
         if( RecvState > 0 )
         {
             Client->Received += RecvState;
-- 
2.43.0


From c699b6c2959d11320f35926253543264155a4ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:51 +0000
Subject: [PATCH 20/43] fix: do not forward an answer from the cache that could
 not be sent

Its query having been replaced by the answer, that went to a server.
---
 dnscache.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dnscache.c b/dnscache.c
index ca4a10a..9d00d54 100755
--- a/dnscache.c
+++ b/dnscache.c
@@ -958,8 +958,9 @@ int DNSCache_FetchFromCache(MsgContext *MsgCtx, int BufferLength)
     h->EntityLength = ResultLength;
     if( MsgContext_SendBack(MsgCtx) < 0 )
     {
+        /* The query is no more: this must not be forwarded instead. */
         /** TODO: Error handling */
-        return -861;
+        return 0;
     }
 
     ShowNormalMessage(h, 'C');
-- 
2.43.0


From 92a55614dfbecf219043beb24cd5bb10b7f91df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:54 +0000
Subject: [PATCH 21/43] fix: end loops of CNAME records in hosts

They were followed for ever, with a new query kept for each step.
---
 hosts.c   | 10 ++++++++++
 iheader.c |  2 ++
 iheader.h |  1 +
 3 files changed, 13 insertions(+)

diff --git a/hosts.c b/hosts.c
index 7f03fa8..db33717 100755
--- a/hosts.c
+++ b/hosts.c
@@ -9,6 +9,9 @@
 
 extern BOOL Ipv6_Enabled;
 
+/* More CNAME records in a row are taken for a loop. */
+#define REDIRECTS_MAX   16
+
 static BOOL BlockIpv6WhenIpv4Exists = FALSE;
 
 static SOCKET   InnerSocket;
@@ -208,6 +211,12 @@ Hosts_SocketLoop(void *Unused)
                 continue;
             }
 
+            if( InnerHeader->Redirects >= REDIRECTS_MAX )
+            {
+                ShowErrorMessage(InnerHeader, 'H');
+                continue;
+            }
+
             if( Hosts_GetCName(InnerHeader->Domain, RecursedDomain) != 0 )
             {
                 ERRORMSG("Fatal error 221.\n");
@@ -240,6 +249,7 @@ Hosts_SocketLoop(void *Unused)
             }
 
             OuterHeader->Parent = (IHeader *)MsgCtxStored;
+            OuterHeader->Redirects = InnerHeader->Redirects + 1;
 
             MMgr_Send(OuterBuffer, SOCKET_CONTEXT_LENGTH);
 
diff --git a/iheader.c b/iheader.c
index 4247e93..150c57c 100755
--- a/iheader.c
+++ b/iheader.c
@@ -12,6 +12,7 @@ void IHeader_Reset(IHeader *h)
     h->Parent = NULL;
     h->RequestTcp = FALSE;
     h->RecursedId = 0;
+    h->Redirects = 0;
     h->Agent[0] = '\0';
     h->BackAddress.family = AF_UNSPEC;
     h->Domain[0] = '\0';
@@ -35,6 +36,7 @@ int IHeader_Fill(IHeader *h,
     h->Parent = NULL;
     h->RequestTcp = FALSE;
     h->RecursedId = 0;
+    h->Redirects = 0;
     h->EDNSEnabled = FALSE;
 
     if( !DNSIsWellFormed(DnsEntity, EntityLength) )
diff --git a/iheader.h b/iheader.h
index 9a24af8..377e49d 100755
--- a/iheader.h
+++ b/iheader.h
@@ -14,6 +14,7 @@ struct _IHeader{
     IHeader     *Parent;    /* Solve CNAME hosts records. */
     BOOL        RequestTcp; /* Parent is from TCP. */
     uint16_t    RecursedId; /* Identifier of the query made to resolve this one, by CNAME hosts. */
+    int         Redirects;  /* Number of CNAME hosts records that led to this query. */
     time_t      Timestamp;
 
     Address_Type    BackAddress;    /* UDP requires it while TCP doesn't */
-- 
2.43.0


From b38dcaf04863edbf0be8a912f1473fab92abf36e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:04 +0000
Subject: [PATCH 22/43] fix: keep to the transport of the asker through several
 CNAME records in hosts

---
 hosts.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hosts.c b/hosts.c
index db33717..3c425ce 100755
--- a/hosts.c
+++ b/hosts.c
@@ -229,7 +229,7 @@ Hosts_SocketLoop(void *Unused)
                                          SOCKET_CONTEXT_LENGTH,
                                          OuterSocket,
                                          &OuterAddress,
-                                         MsgContext_IsFromTCP(InnerMsgCtx),
+                                         MsgContext_IsFromTCP(InnerMsgCtx) || InnerHeader->RequestTcp,
                                          NewIdentifier,
                                          RecursedDomain,
                                          InnerHeader->Type
-- 
2.43.0


From 50ed0ac09d3bdd52dc3ca71e123d523fc1f17f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:24 +0000
Subject: [PATCH 23/43] fix: do not use a cache file that has been cut short

---
 dnscache.c | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/dnscache.c b/dnscache.c
index 9d00d54..23292fe 100755
--- a/dnscache.c
+++ b/dnscache.c
@@ -106,10 +106,16 @@ static void DNSCacheTTLCountdown_Task(void *Unused, void *Unused2)
     }
 }
 
-static BOOL IsReloadable(void)
+static BOOL IsReloadable(int FileSize)
 {
     const struct _Header *Header = (struct _Header *)MapStart;
 
+    if( FileSize < CacheSize )
+    {
+        ERRORMSG("The existing cache is incomplete.\n");
+        return FALSE;
+    }
+
     if( Header->Ver != CACHE_VERSION )
     {
         ERRORMSG("The existing cache is not compatible with this version of program.\n");
@@ -167,11 +173,11 @@ static void CreateNewCache(void)
 
 }
 
-static int InitCacheInfo(ConfigFileInfo *ConfigInfo, BOOL Reload)
+static int InitCacheInfo(ConfigFileInfo *ConfigInfo, BOOL Reload, int FileSize)
 {
     if( Reload == TRUE )
     {
-        if( IsReloadable() )
+        if( IsReloadable(FileSize) )
         {
             ReloadCache();
         } else {
@@ -282,13 +288,15 @@ int DNSCache_Init(ConfigFileInfo *ConfigInfo)
             return 2;
         }
 
-        InitCacheInfoState = InitCacheInfo(ConfigInfo, FALSE);
+        InitCacheInfoState = InitCacheInfo(ConfigInfo, FALSE, 0);
     } else {
         BOOL FileExists;
+        int  FileSize;
 
         INFO("Cache File : %s\n", CacheFile);
 
         FileExists = FileIsReadable(CacheFile);
+        FileSize = GetFileSizePortable(CacheFile); /* before it is grown for mapping */
 
         CacheFileHandle = OPEN_FILE(CacheFile);
         if(CacheFileHandle == INVALID_FILE)
@@ -329,9 +337,9 @@ int DNSCache_Init(ConfigFileInfo *ConfigInfo)
 
         if( FileExists == FALSE )
         {
-            InitCacheInfoState = InitCacheInfo(ConfigInfo, FALSE);
+            InitCacheInfoState = InitCacheInfo(ConfigInfo, FALSE, 0);
         } else {
-            InitCacheInfoState = InitCacheInfo(ConfigInfo, ConfigGetBoolean(ConfigInfo, "ReloadCache"));
+            InitCacheInfoState = InitCacheInfo(ConfigInfo, ConfigGetBoolean(ConfigInfo, "ReloadCache"), FileSize);
         }
     }
 
-- 
2.43.0


From 456b40fe05642871bc327e4a8eaac0a4200faf49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:17 +0000
Subject: [PATCH 24/43] fix: records of type or class 0 are records, too

They ended the parsing: a question of type 0 was taken for the one parsed
before it, and records after one escaped from the filter and the cache.
Type 0 had no name, and logging it crashed.
---
 dnsparser.c  | 5 +----
 dnsrelated.c | 1 -
 2 files changed, 1 insertion(+), 5 deletions(-)

diff --git a/dnsparser.c b/dnsparser.c
index 26d339c..af4edff 100755
--- a/dnsparser.c
+++ b/dnsparser.c
@@ -561,10 +561,7 @@ static char *DnsSimpleParserIterator_Next(DnsSimpleParserIterator *i)
     i->Type = DNSGetRecordType(i->CurrentPosition);
     i->Klass = DNSGetRecordClass(i->CurrentPosition);
 
-    if( i->Purpose != DNS_RECORD_PURPOSE_UNKNOWN &&
-        i->Type != DNS_TYPE_UNKNOWN &&
-        i->Klass != DNS_CLASS_UNKNOWN
-      )
+    if( i->Purpose != DNS_RECORD_PURPOSE_UNKNOWN )
     {
         if( i->Purpose != DNS_RECORD_PURPOSE_QUESTION )
         {
diff --git a/dnsrelated.c b/dnsrelated.c
index c642d71..a4cb52a 100755
--- a/dnsrelated.c
+++ b/dnsrelated.c
@@ -3,7 +3,6 @@
 
 /* http://en.wikipedia.org/wiki/List_of_DNS_record_types */
 const DNSTypeAndName DNSTypeList[] = {
-    {0,     NULL},
     {1,     "IPv4 Address"},
     {2,     "Name Server"},
     {5,     "Canonical Name"},
-- 
2.43.0


From 54227b436c02c35e4d41912648c33ade42ce3bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:17 +0000
Subject: [PATCH 25/43] fix: do not wait for the content of an empty TCP
 segment

A server sending one blocked its module for 2 seconds.
---
 tcpm.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tcpm.c b/tcpm.c
index c83b812..49062de 100755
--- a/tcpm.c
+++ b/tcpm.c
@@ -681,9 +681,9 @@ TcpM_Works(TcpM *m)
             }
 
             TCPLength = ntohs(TCPLength);
-            if( TCPLength > LEFT_LENGTH )
+            if( TCPLength == 0 || TCPLength > LEFT_LENGTH )
             {
-                WARNING("TCP segment is too large, discarded.\n");
+                WARNING("TCP segment is empty or too large, discarded.\n");
                 CLOSE_SOCKET(s);
                 continue;
             }
-- 
2.43.0


From 00cb36f3915dbb778b4fe07547cb32b654fdd3c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:17 +0000
Subject: [PATCH 26/43] fix: copy no more of a message than its records, and
 only where they fit

A large question overflowed the buffer of the frontend when it was looked up
in the cache or the hosts, and bytes after the records ended up between the
records of a local answer.
---
 dnsgenerator.c | 35 ++++++++++++++++++++---------------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/dnsgenerator.c b/dnsgenerator.c
index 2a0d2f1..f489b4f 100755
--- a/dnsgenerator.c
+++ b/dnsgenerator.c
@@ -832,12 +832,16 @@ static int DnsGenerator_Length(const DnsGenerator *g)
     return g->Itr - g->Buffer;
 }
 
-static int StripedLength(const char *Origin, int OriginLength)
+/* Up to the end of the last record to keep. Whatever follows it is no part of
+   the message.
+*/
+static int RecordsLength(const char *Origin, int OriginLength, BOOL Strip)
 {
     DnsSimpleParser p;
     DnsSimpleParserIterator i;
 
-    const char *CurrentPosition;
+    char *CurrentPosition;
+    const char *End = Origin + DNS_HEADER_LENGTH;
 
     if( DnsSimpleParser_Init(&p, (char *)Origin, OriginLength, FALSE) != 0 )
     {
@@ -850,17 +854,21 @@ static int StripedLength(const char *Origin, int OriginLength)
     }
 
     while( (CurrentPosition = i.Next(&i)) != NULL &&
-           (i.Purpose == DNS_RECORD_PURPOSE_QUESTION ||
+           (Strip == FALSE ||
+                i.Purpose == DNS_RECORD_PURPOSE_QUESTION ||
                 i.Purpose == DNS_RECORD_PURPOSE_ANSWER
                 )
-           );
-
-    if( CurrentPosition == NULL )
+           )
     {
-        return OriginLength;
-    } else {
-        return CurrentPosition - p.RawDns;
+        if( i.Purpose == DNS_RECORD_PURPOSE_QUESTION )
+        {
+            End = DNSJumpOverName(CurrentPosition) + 4;
+        } else {
+            End = i.RowData(&i) + i.DataLength;
+        }
     }
+
+    return End - Origin;
 }
 
 static int DnsGenerator_Generate(DnsGenerator *g,
@@ -939,13 +947,10 @@ int DnsGenerator_Init(DnsGenerator *g,
 
         int i;
 
-        if( Strip == TRUE )
+        SourceLength = RecordsLength(CopyFrom, SourceLength, Strip);
+        if( SourceLength < 0 || SourceLength > BufferLength )
         {
-            SourceLength = StripedLength(CopyFrom, SourceLength);
-            if( SourceLength < 0 )
-            {
-                return -2;
-            }
+            return -2;
         }
 
         memmove(g->Buffer, CopyFrom, SourceLength);
-- 
2.43.0


From 782cb376e0111785cccf5dd42601434ce2247a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:18 +0000
Subject: [PATCH 27/43] fix: a local answer is not truncated, even if the
 question says so

---
 dnscache.c   | 1 +
 hostsutils.c | 1 +
 2 files changed, 2 insertions(+)

diff --git a/dnscache.c b/dnscache.c
index 23292fe..71637e1 100755
--- a/dnscache.c
+++ b/dnscache.c
@@ -937,6 +937,7 @@ int DNSCache_FetchFromCache(MsgContext *MsgCtx, int BufferLength)
 
     g.Header->Flags.Direction = 1;
     g.Header->Flags.AuthoritativeAnswer = 0;
+    g.Header->Flags.TrunCation = 0;
     g.Header->Flags.RecursionAvailable = 1;
     g.Header->Flags.ResponseCode = 0;
     g.Header->Flags.Type = 0;
diff --git a/hostsutils.c b/hostsutils.c
index fc43739..7edee2c 100755
--- a/hostsutils.c
+++ b/hostsutils.c
@@ -208,6 +208,7 @@ HostsUtilsTryResult HostsUtils_Try(MsgContext *MsgCtx,
 
         g.Header->Flags.Direction = 1;
         g.Header->Flags.AuthoritativeAnswer = 0;
+        g.Header->Flags.TrunCation = 0;
         g.Header->Flags.RecursionAvailable = 1;
         g.Header->Flags.ResponseCode = 0;
         g.Header->Flags.Type = 0;
-- 
2.43.0


From 39b8ae84d0c2cb44a0df59f5ce2c805b745f4743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:34 +0000
Subject: [PATCH 28/43] fix: a line of whitespaces made ReadLine read the byte
 before its buffer

---
 readline.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/readline.c b/readline.c
index 2fd69aa..e3df0e5 100755
--- a/readline.c
+++ b/readline.c
@@ -58,7 +58,7 @@ static void EliminateFootSpace(char *str)
 
     if( End >= str )
     {
-        for(; isspace(*End) && End >= str; --End);
+        for(; End >= str && isspace(*End); --End);
         *(End + 1) = '\0';
     }
 
-- 
2.43.0


From 3eb1f8db2a37daf855235409cd7e4c38d52a881b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:34 +0000
Subject: [PATCH 29/43] fix: configuration lines longer than the read buffer

The words on both sides of a buffer boundary were joined when a space was there,
the following line was taken for a part of the value when the rest of the line was
empty or a comment, the option was not recognised when the line was indented, and
the rest of a long line of an unknown option was read as options.
---
 readconfig.c | 11 +++++++++++
 readline.c   | 42 ++++++++++++++++++++++++++++++++++++++++--
 2 files changed, 51 insertions(+), 2 deletions(-)

diff --git a/readconfig.c b/readconfig.c
index e84d56e..d858c92 100755
--- a/readconfig.c
+++ b/readconfig.c
@@ -380,7 +380,13 @@ int ConfigRead(ConfigFileInfo *Info)
 
         ValuePos = SplitNameAndValue(Buffer, " \t=");
         if( ValuePos == NULL )
+        {
+            if( ReadStatus == READ_TRUNCATED )
+            {
+                ReadLine_GoToNextLine(Info->fp);
+            }
             continue;
+        }
 
         KeyName = Buffer;
 
@@ -394,6 +400,10 @@ int ConfigRead(ConfigFileInfo *Info)
 
         if( Option == NULL )
         {
+            if( ReadStatus == READ_TRUNCATED )
+            {
+                ReadLine_GoToNextLine(Info->fp);
+            }
             continue;
         }
 
@@ -444,6 +454,7 @@ int ConfigRead(ConfigFileInfo *Info)
             case TYPE_PATH:
                 if( ReadStatus != READ_DONE )
                 {
+                    ReadLine_GoToNextLine(Info->fp);
                     break;
                 }
 
diff --git a/readline.c b/readline.c
index e3df0e5..142329b 100755
--- a/readline.c
+++ b/readline.c
@@ -64,12 +64,40 @@ static void EliminateFootSpace(char *str)
 
 }
 
+/* Is there nothing but whitespaces and an annotation in the rest of the line?
+   Otherwise, the rest is left to be read without the whitespaces ahead of it. */
+static BOOL NothingLeft(FILE *fp, BOOL *Spaced)
+{
+    int c;
+
+    *Spaced = FALSE;
+
+    for(c = getc(fp); c == ' ' || c == '\t'; c = getc(fp))
+    {
+        *Spaced = TRUE;
+    }
+
+    if( c == '#' || c == ';' )
+    {
+        for(; c != '\n' && c != EOF; c = getc(fp));
+    }
+
+    if( c == '\r' || c == '\n' || c == EOF )
+    {
+        return TRUE;
+    }
+
+    ungetc(c, fp);
+    return FALSE;
+}
+
 ReadLineStatus ReadLine(FILE *fp, char *Buffer, int BufferSize)
 {
     BOOL    ReachedEnd;
+    BOOL    Spaced;
 
 START:
-    if( Buffer == NULL || fgets(Buffer, BufferSize, fp) == NULL )
+    if( Buffer == NULL || fgets(Buffer, BufferSize - 1, fp) == NULL )
     {
         return READ_FAILED_OR_END;
     } else {
@@ -85,7 +113,7 @@ START:
             {
                 if( fgets(BlackHole, sizeof(BlackHole), fp) == NULL )
                 {
-                    return READ_FAILED_OR_END;
+                    break;
                 }
                 ReachedEnd = ReachedLineEnd(fp, BlackHole);
             }while( ReachedEnd == FALSE );
@@ -103,6 +131,15 @@ START:
 
     }
 
+    if( ReachedEnd == FALSE )
+    {
+        ReachedEnd = NothingLeft(fp, &Spaced);
+        if( ReachedEnd == FALSE && Spaced )
+        {
+            strcat(Buffer, " ");
+        }
+    }
+
     if( ReachedEnd == TRUE )
     {
         EliminateCRLF(Buffer);
@@ -115,6 +152,7 @@ START:
             return READ_DONE;
         }
     } else {
+        EliminateHeadSpace(Buffer);
         return READ_TRUNCATED;
     }
 }
-- 
2.43.0


From 0bf2f0d8020b79c869554d4ee42ee39a8d94f3a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:56 +0000
Subject: [PATCH 30/43] fix: an address that refuses connections was taken for
 the fastest of a good IP list

---
 goodiplist.c | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/goodiplist.c b/goodiplist.c
index 1115028..7a2f663 100755
--- a/goodiplist.c
+++ b/goodiplist.c
@@ -22,6 +22,7 @@ static struct sockaddr_in *CheckAList(struct sockaddr_in *Ips, int Count)
     int i;
     struct timeval  Time    =   {5, 0};
     struct sockaddr_in **Fastest = NULL;
+    SOCKET  s;
 
     struct sockaddr_in *ret = NULL;
 
@@ -59,16 +60,20 @@ static struct sockaddr_in *CheckAList(struct sockaddr_in *Ips, int Count)
         p.Add(&p, skt, &a, sizeof(struct sockaddr *));
     }
 
-    if( p.Select(&p, &Time, (void **)&Fastest, FALSE, TRUE, NULL) == INVALID_SOCKET )
+    while( (s = p.Select(&p, &Time, (void **)&Fastest, FALSE, TRUE, NULL)) != INVALID_SOCKET )
     {
-        ret = NULL;
-    }
+        struct sockaddr_in  Peer;
+        socklen_t   PeerLength = sizeof(Peer);
 
-    if( Fastest == NULL )
-    {
-        ret = NULL;
-    } else {
-        ret = *Fastest;
+        if( Fastest != NULL && getpeername(s, (struct sockaddr *)&Peer, &PeerLength) == 0 )
+        {
+            ret = *Fastest;
+            break;
+        }
+
+        /* Failed to connect */
+        p.Del(&p, s);
+        CLOSE_SOCKET(s);
     }
 
     p.Free(&p);
-- 
2.43.0


From 9eff0f7c7f180266e33155fe6bcf2f121fd2ba3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:25 +0000
Subject: [PATCH 31/43] fix: the path of a domain list in a group file was
 converted to lower case

---
 mmgr.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/mmgr.c b/mmgr.c
index 144f6b1..2778f91 100755
--- a/mmgr.c
+++ b/mmgr.c
@@ -389,11 +389,18 @@ static int Modules_InitFromFile(ModuleMap *ModuleMap, StringListIterator *i)
             break;
         }
 
+        /* A domain, or the name of an option */
+        Value = SplitNameAndValue(Buffer, " \t=");
         StrToLower(Buffer);
 
-        Value = SplitNameAndValue(Buffer, " \t=");
         if( Value != NULL )
         {
+            /* The only one whose case matters is the path of a file */
+            if( strcmp(Buffer, "list") != 0 )
+            {
+                StrToLower((char *)Value);
+            }
+
             StringChunk_Add(&Args, Buffer, Value, strlen(Value) + 1);
         } else {
             Domains.Add(&Domains, Buffer, NULL);
-- 
2.43.0


From a9116db74d9f10e740828962d8636c63be8ef377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:25 +0000
Subject: [PATCH 32/43] fix: DisabledDomain and DisabledList entries with
 capital letters never matched

---
 filter.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/filter.c b/filter.c
index 26d56c4..9882c1f 100755
--- a/filter.c
+++ b/filter.c
@@ -6,6 +6,7 @@
 #include "common.h"
 #include "logs.h"
 #include "readline.h"
+#include "utils.h"
 #include "domainstatistic.h"
 #include "rwlock.h"
 
@@ -79,6 +80,8 @@ static int FilterDomain_Init(StringChunk **List, ConfigFileInfo *ConfigInfo)
         return -120;
     }
 
+    dd->LowercaseAll(dd);
+
     LoadDomainsFromList(*List, dd);
 
     return 0;
@@ -112,6 +115,7 @@ static int LoadDomainsFromFile(StringChunk *List, const char *FilePath)
 
         if( Status == READ_DONE )
         {
+            StrToLower(Domain);
             StringChunk_Add_Domain(List, Domain, NULL, 0);
         } else {
             ReadLine_GoToNextLine(fp);
-- 
2.43.0


From 405f8492adbfbe9bf3bfdd23780989f39deb935f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:25 +0000
Subject: [PATCH 33/43] fix: names with capital letters in hosts never matched

---
 hostscontainer.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hostscontainer.c b/hostscontainer.c
index 1a986cc..31019fe 100755
--- a/hostscontainer.c
+++ b/hostscontainer.c
@@ -404,6 +404,9 @@ PUBFUNC HostsRecordType HostsContainer_Load(HostsContainer *Container,
         return HOSTS_TYPE_UNKNOWN;
     }
 
+    /* Questions are looked up in lower case */
+    StrToLower(Domain);
+
     return HostsContainer_Add(Container, IPOrCName, Domain);
 }
 
-- 
2.43.0


From 2273469460ce20c95f0da48984380bb5067a252d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:25 +0000
Subject: [PATCH 34/43] fix: CacheControl rules with capital letters never
 matched

---
 cachettlcrtl.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cachettlcrtl.c b/cachettlcrtl.c
index 8b0753d..1238949 100755
--- a/cachettlcrtl.c
+++ b/cachettlcrtl.c
@@ -2,6 +2,7 @@
 #include <string.h>
 #include "cachettlcrtl.h"
 #include "logs.h"
+#include "utils.h"
 
 void CacheTtlCrtl_Free(CacheTtlCtrl *c)
 {
@@ -35,6 +36,9 @@ int CacheTtlCrtl_Add_From_String(CacheTtlCtrl *c, const char *Rule)
 
     sscanf(Rule, "%127s%15s%63s", Domain, Cmd, Arg);
 
+    /* Questions are looked up in lower case */
+    StrToLower(Domain);
+
     if( Cmd[0] == '$' )
     {
         if( Cmd[1] == '$' )
-- 
2.43.0


From b72be24359c90eafd42f7840b26a5c5fe58f8725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:29 +0000
Subject: [PATCH 35/43] fix: UDP servers of another family than the first one
 could not be asked

A UDP group has one socket, of the family of the server in use when it was
created. When that server is given up for one of the other family, sending
fails until the socket happens to be recreated, so questions were lost
although servers were there to answer them.
---
 udpm.c | 105 +++++++++++++++++++++++++++++++++++++++------------------
 udpm.h |   3 +-
 2 files changed, 75 insertions(+), 33 deletions(-)

diff --git a/udpm.c b/udpm.c
index 21a7fc7..0732563 100755
--- a/udpm.c
+++ b/udpm.c
@@ -51,12 +51,45 @@ UdpM_Sweep_Thread(UdpM *m)
     return 0;
 }
 
+static void UdpM_CloseDepartures(UdpM *m)
+{
+    if( m->Departure != INVALID_SOCKET )
+    {
+        CLOSE_SOCKET(m->Departure);
+        m->Departure = INVALID_SOCKET;
+    }
+
+    if( m->Departure6 != INVALID_SOCKET )
+    {
+        CLOSE_SOCKET(m->Departure6);
+        m->Departure6 = INVALID_SOCKET;
+    }
+}
+
+static void UdpM_OpenDeparture(UdpM *m, sa_family_t family)
+{
+    volatile SOCKET *Departure = family == AF_INET6 ? &(m->Departure6) : &(m->Departure);
+
+    if( *Departure != INVALID_SOCKET )
+    {
+        return;
+    }
+
+    *Departure = socket(family, SOCK_DGRAM, IPPROTO_UDP);
+
+#if defined(_WIN32) && defined(IPV6_V6ONLY)
+    if( family == AF_INET6 && *Departure != INVALID_SOCKET )
+    {
+        SetSocketIPv6V6only(*Departure, 0);
+    }
+#endif
+}
+
 static int UdpM_Cleanup(UdpM *m)
 {
     m->IsServer = 0;
 
-    CLOSE_SOCKET(m->Departure);
-    m->Departure = INVALID_SOCKET;
+    UdpM_CloseDepartures(m);
 
     SafeFree(m->Parallels.addrs);
     AddressList_Free(&(m->AddrList));
@@ -75,8 +108,6 @@ UdpM_Works(UdpM *m)
     static const struct timeval ShortTime = {10, 0};
     struct timeval Timeout;
 
-    struct sockaddr *addr;
-
     char ReceiveBuffer[SOCKET_CONTEXT_LENGTH];
     MsgContext *MsgCtx;
     IHeader *Header;
@@ -85,6 +116,8 @@ UdpM_Works(UdpM *m)
     char *Entity;
 
     fd_set  ReadSet, ReadySet;
+    SOCKET  MaxFd = 0;
+    SOCKET  Ready;
 
     BOOL    Idle = FALSE;
     BOOL    Serving;
@@ -103,58 +136,60 @@ UdpM_Works(UdpM *m)
         int ContextState;
 
         /* Set up socket */
-        if( m->Departure == INVALID_SOCKET )
+        if( m->Departure == INVALID_SOCKET && m->Departure6 == INVALID_SOCKET )
         {
             sa_family_t family;
+            int i;
 
             EFFECTIVE_LOCK_GET(m->Lock);
             if( m->Parallels.addrs == NULL )
             {
-                addr = AddressList_GetOne(&(m->AddrList), &family);
-                if( addr == NULL )
+                /* Any of the addresses may be in use next. */
+                for( i = 0; AddressList_GetOneBySubscript(&(m->AddrList), &family, i) != NULL; ++i )
                 {
-                    ERRORMSG("Fatal error 53.\n");
-                    EFFECTIVE_LOCK_RELEASE(m->Lock);
-                    break;
+                    UdpM_OpenDeparture(m, family);
                 }
 
             } else { /* Parallel query */
-                family = m->Parallels.familiy;
+                UdpM_OpenDeparture(m, m->Parallels.familiy);
             }
-            m->Departure = socket(family, SOCK_DGRAM, IPPROTO_UDP);
 
-            if( m->Departure == INVALID_SOCKET )
+            if( m->Departure == INVALID_SOCKET && m->Departure6 == INVALID_SOCKET )
             {
                 ERRORMSG("Fatal error 68.\n");
                 EFFECTIVE_LOCK_RELEASE(m->Lock);
                 break;
             }
 
-#if defined(_WIN32) && defined(IPV6_V6ONLY)
-            if( family == AF_INET6 )
-            {
-                SetSocketIPv6V6only(m->Departure, 0);
-            }
-#endif
-
             m->CountOfTimeout = 0;
 
             EFFECTIVE_LOCK_RELEASE(m->Lock);
 
             FD_ZERO(&ReadSet);
-            FD_SET(m->Departure, &ReadSet);
+            MaxFd = 0;
+            if( m->Departure != INVALID_SOCKET )
+            {
+                FD_SET(m->Departure, &ReadSet);
+                MaxFd = m->Departure;
+            }
+            if( m->Departure6 != INVALID_SOCKET )
+            {
+                FD_SET(m->Departure6, &ReadSet);
+                if( m->Departure6 > MaxFd )
+                {
+                    MaxFd = m->Departure6;
+                }
+            }
         }
 
         Serving = m->IsServer;
         ReadySet = ReadSet;
         Timeout = ShortTime;
-        switch( select(m->Departure + 1, &ReadySet, NULL, NULL, &Timeout) )
+        switch( select(MaxFd + 1, &ReadySet, NULL, NULL, &Timeout) )
         {
             case SOCKET_ERROR:
                 WARNING("SOCKET_ERROR reached, 98.\n");
-                FD_CLR(m->Departure, &ReadSet);
-                CLOSE_SOCKET(m->Departure);
-                m->Departure = INVALID_SOCKET;
+                UdpM_CloseDepartures(m);
                 Idle = TRUE;
                 continue;
                 break;
@@ -165,9 +200,7 @@ UdpM_Works(UdpM *m)
                 #define RECREATION_THRESHOLD    8
                 if( m->CountOfTimeout > RECREATION_THRESHOLD )
                 {
-                    FD_CLR(m->Departure, &ReadSet);
-                    CLOSE_SOCKET(m->Departure);
-                    m->Departure = INVALID_SOCKET;
+                    UdpM_CloseDepartures(m);
 
                     WARNING("UDP socket is about to be recreated.\n");
                 }
@@ -181,7 +214,13 @@ UdpM_Works(UdpM *m)
         }
 
         /* recv */
-        RecvState = recvfrom(m->Departure,
+        Ready = m->Departure;
+        if( Ready == INVALID_SOCKET || !FD_ISSET(Ready, &ReadySet) )
+        {
+            Ready = m->Departure6;
+        }
+
+        RecvState = recvfrom(Ready,
                              Entity,
                              LEFT_LENGTH,
                              0,
@@ -286,17 +325,18 @@ static int UdpM_Send(UdpM *m,
     }
     EFFECTIVE_LOCK_RELEASE(m->Lock);
 
-    if( m->Departure != INVALID_SOCKET )
+    if( m->Departure != INVALID_SOCKET || m->Departure6 != INVALID_SOCKET )
     {
         if( m->Parallels.addrs != NULL )
         { /* Parallel query */
             struct sockaddr **a = m->Parallels.addrs;
+            SOCKET Departure = m->Parallels.familiy == AF_INET6 ? m->Departure6 : m->Departure;
 
             while( *a != NULL )
             {
                 int State;
 
-                State = sendto(m->Departure,
+                State = sendto(Departure,
                                (const void *)(h + 1),
                                h->EntityLength,
                                MSG_NOSIGNAL,
@@ -322,7 +362,7 @@ static int UdpM_Send(UdpM *m,
                 return -277;
             }
 
-            State = sendto(m->Departure,
+            State = sendto(family == AF_INET6 ? m->Departure6 : m->Departure,
                            (const void *)(h + 1),
                            h->EntityLength,
                            MSG_NOSIGNAL,
@@ -354,6 +394,7 @@ int UdpM_Init(UdpM *m, const char *Services, BOOL Parallel)
     }
 
     m->Departure = INVALID_SOCKET;
+    m->Departure6 = INVALID_SOCKET;
     if( StringList_Init(&Addresses, Services, ", ") != 0 )
     {
         return -364;
diff --git a/udpm.h b/udpm.h
index 77655b9..d1f2213 100755
--- a/udpm.h
+++ b/udpm.h
@@ -10,7 +10,8 @@ typedef struct _UdpM UdpM;
 
 struct _UdpM {
     /* private */
-    volatile SOCKET  Departure;
+    volatile SOCKET  Departure;  /* For IPv4 addresses */
+    volatile SOCKET  Departure6; /* For IPv6 addresses */
     ModuleContext Context;
 
     EFFECTIVE_LOCK  Lock;
-- 
2.43.0


From 4fef720b465c63c3c5bf0154dbe6fac7dd020e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:48 +0000
Subject: [PATCH 36/43] fix: IPv6 addresses that end like an IPv4 address were
 misread

::ffff:1.2.3.4, as the documentation suggests for servers, was taken for
::255.255.0.1.
---
 utils.c | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/utils.c b/utils.c
index a549682..094b1db 100755
--- a/utils.c
+++ b/utils.c
@@ -444,11 +444,30 @@ int IPv6AddressToNum(const char *asc, void *Buffer)
 {
     int16_t *buf_s  =   (int16_t *)Buffer;
     const char  *itr;
+    char    Hex[LENGTH_OF_IPV6_ADDRESS_ASCII + 1];
+    unsigned int    d[4];
 
     memset(Buffer, 0, 16);
 
     for(; isspace(*asc); ++asc);
 
+    /* The last 32 bits may be written as an IPv4 address. */
+    itr = strrchr(asc, ':');
+    if( itr != NULL
+        && itr - asc < LENGTH_OF_IPV6_ADDRESS_ASCII - 9
+        && sscanf(itr + 1, "%3u.%3u.%3u.%3u", d, d + 1, d + 2, d + 3) == 4
+        )
+    {
+        sprintf(Hex,
+                "%.*s:%x:%x",
+                (int)(itr - asc),
+                asc,
+                ((d[0] & 0xFF) << 8) | (d[1] & 0xFF),
+                ((d[2] & 0xFF) << 8) | (d[3] & 0xFF)
+                );
+        asc = Hex;
+    }
+
     if( strstr(asc, "::") == NULL )
     {   /* full format */
         uint32_t a[8];
-- 
2.43.0


From e2845b444b10e52848e169ec094ba5e6302f273c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:33 +0000
Subject: [PATCH 37/43] fix: the error page of a web server was taken for the
 hosts file

With libcurl, 404 and the like did not count as a failed download (as they
do with wget): what came with it replaced the hosts in use.
---
 downloader.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/downloader.c b/downloader.c
index 15fdc3c..867aab4 100755
--- a/downloader.c
+++ b/downloader.c
@@ -277,6 +277,7 @@ Exit_1:
 
     curl_easy_setopt(curl, CURLOPT_URL, URL);
     curl_easy_setopt(curl, CURLOPT_FOLLOWLOCATION, 1l);
+    curl_easy_setopt(curl, CURLOPT_FAILONERROR, 1l);
     curl_easy_setopt(curl, CURLOPT_WRITEFUNCTION, WriteFileCallback);
     curl_easy_setopt(curl, CURLOPT_WRITEDATA, fp);
 
-- 
2.43.0


From 98a4e0358c8fd6baccfbe938490b987f2bcc343d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:42 +0000
Subject: [PATCH 38/43] fix: a comment that starts with ; and contains # was
 not removed

Only what followed the # was cut off then, and the rest of the comment was
taken for a part of the line.
---
 readline.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/readline.c b/readline.c
index 142329b..ecaf44e 100755
--- a/readline.c
+++ b/readline.c
@@ -95,6 +95,7 @@ ReadLineStatus ReadLine(FILE *fp, char *Buffer, int BufferSize)
 {
     BOOL    ReachedEnd;
     BOOL    Spaced;
+    BOOL    Annotated;
 
 START:
     if( Buffer == NULL || fgets(Buffer, BufferSize - 1, fp) == NULL )
@@ -104,7 +105,11 @@ START:
         ReachedEnd = ReachedLineEnd(fp, Buffer);
     }
 
-    if( (ClearAnnotation(Buffer, '#') || ClearAnnotation(Buffer, ';')) != FALSE )
+    /* The second mark may be ahead of the first one. */
+    Annotated = ClearAnnotation(Buffer, '#');
+    Annotated |= ClearAnnotation(Buffer, ';');
+
+    if( Annotated != FALSE )
     {
         if( ReachedEnd == FALSE )
         {
-- 
2.43.0


From d4ebfe9e9b2de5195c3da960172e1ec3b25561fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:55 +0000
Subject: [PATCH 39/43] fix: of several hosts entries for a name the first one
 was returned instead of the last

---
 hostscontainer.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/hostscontainer.c b/hostscontainer.c
index 31019fe..5e83a02 100755
--- a/hostscontainer.c
+++ b/hostscontainer.c
@@ -256,9 +256,9 @@ OUT_SEARCH:
             return -212;
         }
     } else {
-        n.Next = Exist->Next;
+        /* The last one is found first. */
         s = Container->Table.Add(&(Container->Table),
-                                 &n,
+                                 Exist,
                                  sizeof(TableNode),
                                  TRUE
                                  );
@@ -267,7 +267,8 @@ OUT_SEARCH:
             return -213;
         }
 
-        Exist->Next = s;
+        n.Next = s;
+        *Exist = n;
     }
 
     return 0;
-- 
2.43.0


From e9f31330940ac6faa31b47e04757324b83fcec84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:38 +0000
Subject: [PATCH 40/43] fix: checks of good IP lists delayed the other ones and
 reloading by up to 5 seconds each

---
 goodiplist.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/goodiplist.c b/goodiplist.c
index 7a2f663..bee2bb6 100755
--- a/goodiplist.c
+++ b/goodiplist.c
@@ -238,8 +238,9 @@ static int AddTask(void)
     {
         if( m != NULL )
         {
+            /* A check may take seconds, the timer must not wait for it */
             TimedTask_Add(TRUE,
-                          FALSE,
+                          TRUE,
                           m->Interval,
                           (TaskFunc)ThreadJod,
                           (void *)Domain,
-- 
2.43.0


From b8a683e6b79fa57ed11de986cd8c653b42f1710a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:03 +0000
Subject: [PATCH 41/43] fix: with AP on, a question with additional records but
 none for EDNS hung the program

---
 iheader.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/iheader.c b/iheader.c
index 150c57c..d2b6e63 100755
--- a/iheader.c
+++ b/iheader.c
@@ -141,9 +141,16 @@ int MsgContext_AddFakeEdns(MsgContext *MsgCtx, int BufferLength)
         return -125;
     }
 
-    while( g.NextPurpose(&g) != DNS_RECORD_PURPOSE_ADDITIONAL );
+    /* With additional records, their purpose is the current one already */
+    if( DNSGetAdditionalCount(IHEADER_TAIL(h)) == 0 )
+    {
+        while( g.NextPurpose(&g) != DNS_RECORD_PURPOSE_ADDITIONAL );
+    }
 
-    g.EDns(&g, 1280);
+    if( g.EDns(&g, 1280) != 0 )
+    {
+        return -145;
+    }
 
     h->EntityLength = g.Length(&g);
     h->EDNSEnabled = TRUE;
-- 
2.43.0


From d7a8343f3aa6b3ad06203e5b78bbca4cdb157877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:17 +0000
Subject: [PATCH 42/43] fix: the address :: and networks that start with it
 were ignored in BlockIP and IPSubstituting

---
 utils.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils.c b/utils.c
index 094b1db..2bd01b4 100755
--- a/utils.c
+++ b/utils.c
@@ -488,7 +488,7 @@ int IPv6AddressToNum(const char *asc, void *Buffer)
         if( asc[2] == '\0' || isspace(asc[2]) )
         {
             memset(Buffer, 0, 16);
-            return 0;
+            return 16;
         }
 
         while(1)
-- 
2.43.0


From e0135cde61069bdb72bc9947b3ff792426979ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:49 +0000
Subject: [PATCH 43/43] fix: records lost with IgnoreTTL and CacheParallel

A record that was cached again exactly when an older one of the same name
and type would have expired left them all with a TTL of 0, so that none was
served any more; others were given times left that do not count.
---
 dnscache.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dnscache.c b/dnscache.c
index 71637e1..007cfa5 100755
--- a/dnscache.c
+++ b/dnscache.c
@@ -446,7 +446,8 @@ static uint32_t DNSCache_CacheMinTTL(const char *Content, size_t Length, uint32_
     /* Get the smallest, in case of not equal. */
     while( (Node = DNSCache_FindFromCache(Content, Length, Node, CurrentTime)) != NULL )
     {
-        uint32_t TTL = Node->TTL - (CurrentTime - Node->TimeAdded);
+        /* Time does not count when TTLs are ignored. */
+        uint32_t TTL = IgnoreTTL ? Node->TTL : Node->TTL - (CurrentTime - Node->TimeAdded);
         if( RecordTTL > TTL )
         {
             RecordTTL = TTL;
-- 
2.43.0

