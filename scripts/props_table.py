p("R01","Ratchet delivers every message exactly once, intact, in any arrival order",
"Once two users have completed the ratchet key exchange, every message one of them encrypts is decrypted by the other to exactly the bytes that were encrypted, whatever order the messages arrive in and whichever are lost, as long as no more than 80 messages are outstanding as skipped. A message that has been decrypted once is never decrypted a second time.",
["histories","inputs"],"all interleavings of sends by both sides, all delivery permutations, losses and replays of the sent messages, all plaintexts including the empty one",
"The tests drive a handful of fixed scripts with 'test message' payloads; which key a late message needs depends on the full delivery history and on where the Diffie-Hellman steps fall.",
["ratchet/ratchet.go"],[("Encrypt/Decrypt","ratchet/ratchet.go"),("saveKeys/mergeSavedKeys/trySavedKeys","ratchet/ratchet.go")],
[("saved","message keys of skipped messages per header key","ratchet.Ratchet")],["plaintexts returned by Decrypt"])
p("R02","Ratchet rejects what the peer did not send and is unharmed by it",
"Bytes that the peer did not produce for this conversation (truncated, altered, replayed, or taken from another conversation) are rejected with an error, and the conversation then still decrypts every message that it could have decrypted before and its saved state is unchanged.",
["inputs","histories"],"every alteration of every byte of a genuine message, all lengths, at every point of a bounded history",
"Tests flip nothing and replay once; the guarantee is over every altered byte string and the state at which it arrives.",
["ratchet/ratchet.go"],[("header and payload authentication before state commit","ratchet/ratchet.go Decrypt")],None,["Decrypt error; Marshal before and after"])
p("R03","A saved and restored ratchet continues exactly as the original would have",
"A ratchet that is saved and restored at any point in a conversation encrypts and decrypts from then on exactly as the one that was saved, including messages that were skipped before the save and arrive after it. Only skipped-message keys whose lifetime has passed at the time of restoring are dropped.",
["histories","crash_points"],"save/restore at any point of any bounded message history by either side, all clock values",
"Tests restore at one fixed point; which pieces of state matter depends on the history before and after the restore.",
["ratchet/ratchet.go","ratchet/disk/disk.go"],[("Marshal/Unmarshal","ratchet/ratchet.go"),("RatchetState","ratchet/disk/disk.go")],None,["Decrypt results after Unmarshal"])
p("R04","Ratchet key exchange agrees, and never uses one message key twice",
"After an honest key exchange both users hold matching send and receive secrets so that either can send first, and no two messages sent in a conversation are protected by the same key and nonce, in either direction. A key exchange message that is malformed, reflected, or meant for another exchange is rejected without a crash.",
["histories","inputs"],"all interleavings of sends up to the bound; every malformed field of the exchange messages, all lengths",
"Tests only look at successful exchanges and cannot see key reuse.",
["ratchet/ratchet.go"],[("FillKeyExchange/CompleteKeyExchange","ratchet/ratchet.go"),("ratchet step on first send after receive","ratchet/ratchet.go Encrypt")],None,["keys and nonces given to the AEAD"])
p("S01","Session handshake: both ends agree on keys and identities or both can tell",
"When an initiator that expects a given responder completes the session handshake without error, the responder holds the same pair of directional keys, and each side's view of the other's identity key is right. If a handshake message was altered, truncated, replaced or injected by the network, the handshake ends in an error on at least the side that received it, and no side ever crashes or accepts a session with a peer that lacks the expected key.",
["inputs","fault_sequences"],"every alteration of any handshake message in flight, all truncations, every wrong peer key",
"Tests run the honest handshake only; the guarantee is over every active network attacker move.",
["session/kx.go"],[("Initiate/Respond","session/kx.go"),("genAuth/deriveKeys","session/kx.go")],None,["error returns and negotiated keys"])
p("S02","Session transport: in order, exactly once, tamper-evident, nonces never repeat",
"Within an established session each side reads exactly the messages the other wrote, in order, each once; any altered, replayed, reordered, dropped or truncated record makes the read fail rather than return other data. No two records are sealed with the same key and nonce.",
["inputs","fault_sequences"],"all message contents and sizes within the bound, all record-level and byte-level alterations; all 64-bit record counters",
"Tests send a fixed set of messages over an honest pipe.",
["session/kx.go"],[("readWithKey/writeWithKey/incSeq","session/kx.go")],None,["Read results; nonces given to the AEAD"])
p("S03","A message the session refuses to send leaves the session usable",
"A write that is refused because the message is too large sends nothing and changes nothing: messages written before and after it are still received by the peer. Every message that a write accepts can be read by a peer configured with the same limit.",
["inputs","histories"],"every message size around the limit, every position of the refused write in a history",
"Tests only check that the oversized write returns an error.",
["session/kx.go"],[("size check in Write, limit in Read","session/kx.go")],None,["peer Read results"])
p("B01","Shared blobs: what is packed and sealed is what is recovered, or an error",
"Encrypting and packing data and then unpacking and decrypting it with the same secret returns exactly the original data; with any other key, any altered byte, or any truncation it returns an error. Input of any length and content is handled without a crash.",
["inputs"],"all payloads up to the bound, all byte alterations, all blob lengths from zero",
"Tests use one payload and never a short or altered blob.",
["blobshare/blobshare.go"],[("Pack*/Unpack*/Encrypt/Decrypt","blobshare/blobshare.go")],None,["returned bytes and error"])
p("D01","Record database: a saved database reopens with exactly the same tables",
"Whatever sequence of table creations, sets and deletes is applied, reads return the latest value set, and after a save and reopen every table and record is there with the same value in the same table, and nothing else is. A save that reported success never loses a table or a record.",
["histories","inputs"],"all bounded sequences of operations with symbolic table names, keys and values, all orders in which the in-memory maps may be iterated",
"Map iteration order varies per run, and tests store two or three fixed records.",
["inidb/inidb.go"],[("Save/New","inidb/inidb.go"),("Get/Set/Del/NewTable/DelTable","inidb/inidb.go")],None,["Get/Records after reopening"])
p("D02","Record database: a crash or write failure during save never loses the old data",
"If the process dies at any point during a save, or any single file operation of the save fails, reopening the database yields either exactly the contents before the save or exactly the new contents. A save whose file operations did not all succeed does not report success.",
["crash_points","fault_sequences"],"every point between and inside the file operations of a save; every single failing operation including short writes",
"Tests never interrupt a save or fail a write.",
["inidb/inidb.go"],[("write new file, back up, rename","inidb/inidb.go Save")],None,["contents on reopening after the crash"])
p("A01","Store and forward: each queued message reaches the online recipient exactly once",
"A message accepted for a recipient is handed to that recipient's session with exactly the stored sender, content and arrival time, once per session, and stays queued until it is deleted after acknowledgement; this holds for messages queued before, while and after the recipient comes online. Accepting one message never overwrites or loses another.",
["schedules","histories","inputs"],"all interleavings of deliveries, coming online, acknowledgement and going offline, equal or increasing clock readings, all payloads within the bound",
"The tests run one delivery schedule; the outcome depends on the interleaving of the delivery goroutine with the senders and on equal time stamps.",
["zkserver/account/account.go"],[("Deliver/Online/Offline/Delete","zkserver/account/account.go"),("deliver goroutine","zkserver/account/account.go")],None,["notifications delivered to the session"])
p("A02","Accounts: create, enable and disable behave as a persistent state machine",
"An account can be created once and only once; from then on it is enabled or disabled exactly as the last successful command said, including after a restart, and only enabled accounts can go online. A disabled account's identity can never be taken over by creating it again, and failed commands change nothing.",
["histories","fault_sequences"],"all bounded sequences of create, enable, disable, online and restart, with file operations failing at any point",
"Tests exercise one order of commands without failures.",
["zkserver/account/account.go"],[("Create/Enable/Disable/Disabled/Online","zkserver/account/account.go")],None,["command results; account status after restart"])
p("A03","Store and forward survives a crash while a message is being stored",
"If the server dies at any point while storing a message, then after a restart the recipient either receives that message with its exact content or does not receive it; no other queued message is lost, nothing else is ever delivered in its place, and delivery of the remaining messages is not blocked.",
["crash_points"],"every point between and inside the file operations of a store, followed by a restart and a login",
"Tests never interrupt a store.",
["zkserver/account/account.go"],[("Deliver writes the message file","zkserver/account/account.go")],None,["notifications after restart"])
p("G01","Tags in flight are unique, bounded, and returned ones become available again",
"At any moment no tag is handed out twice, every tag handed out lies below the configured depth, exactly the configured number can be outstanding, and a returned tag can be handed out again; asking when none is left or returning when all are in fails cleanly (or waits, in the blocking flavour, and is woken up). This holds under concurrent use.",
["histories","schedules"],"all bounded sequences of take and return with arbitrary depth, and all interleavings of two or three users",
"Tests run sequentially on one depth.",
["tagstack/tagstack.go"],[("Push/Pop","tagstack/tagstack.go")],None,["tags returned"])
p("I01","Identities: what is published verifies, and nothing altered does",
"A public identity that its owner produced verifies and survives encoding and decoding unchanged; if any of the bytes in its name, nick, keys, identity, digest or signature is altered, or bytes are moved between the name and the nick, it is rejected. An identity that verifies carries the handle that belongs to its key. Every signed message verifies under exactly the signer's key.",
["inputs"],"all names and nicks within the bound, every altered byte in every field",
"Tests verify one honest identity and flip one bit.",
["zkidentity/zkidentity.go"],[("Verify/Digest/Marshal","zkidentity/zkidentity.go")],None,["Verify result"])
p("I02","Text forms of identities are parsed strictly and never crash",
"Parsing the textual form of an identity accepts exactly the well-formed texts (64 hexadecimal digits) and recovers exactly the value that was printed; anything else is an error and never a crash. The readable form of a rendezvous token holds exactly the token.",
["inputs"],"all texts up to the bound",
"Tests parse one good text.",
["zkidentity/zkidentity.go","tools/tools.go"],[("String2ID, String, Fingerprint","zkidentity/zkidentity.go"),("ValidateIdentity, InFours","tools/tools.go")],None,["parsed value and error"])
p("V01","Server: no client message can crash the server or disturb other sessions",
"Whatever authenticated but malicious bytes a client sends, in a session or before one, the server answers with an error or closes that session; it never crashes, and replies it sends carry the tag of the request that they answer.",
["inputs","histories"],"all command names, tags, and payload contents and lengths up to the bound, in every session state",
"Tests send well-formed commands only.",
["zkserver/zkserver.go","zkserver/rendezvous.go","zkserver/cache.go","tagstack/tagstack.go"],[("handleSession dispatch, tag bounds check","zkserver/zkserver.go")],None,["replies on the wire; process survival"])
p("V02","Server: mail goes to its recipient, truly attributed; only acks remove it",
"A message submitted in a session is queued for exactly the recipient it names, unchanged, marked with the identity that authenticated the session and with the time when the server received it, and is acknowledged to the sender only after it was stored. A queued message is removed only when the recipient's own session acknowledges the very delivery that carried it.",
["histories","inputs"],"all bounded sequences of sends, pushes and acknowledgements with arbitrary tags, recipients and payloads",
"Tests cover one send with its one acknowledgement.",
["zkserver/zkserver.go","zkserver/cache.go","zkserver/account/account.go"],[("handleCache, acknowledgement tag table","zkserver/zkserver.go")],None,["recipient queue; files on disk"])
p("V03","Rendezvous blobs: each name is one publisher's, and is handed out as published",
"A rendezvous blob that was accepted is returned unchanged to whoever presents its name, a name in use is never reassigned to other content (also if publications coincide or the server dies), unknown or expired names yield an error, and the server's size limits are enforced.",
["histories","schedules","inputs"],"all bounded sequences and interleavings of publications and pulls with arbitrary names, contents and clock values",
"Tests publish once and pull once.",
["zkserver/rendezvous.go"],[("handleRendezvous/handleRendezvousPull","zkserver/rendezvous.go")],None,["replies"])
p("V04","Account creation obeys the server policy; a token creates at most one account",
"Under a closed policy no account is ever created, under a token policy an account is created only with an unexpired token issued by the administrator, and each token creates at most one account even when it is presented concurrently, across restarts, or while writes fail. An account is created only for an identity that verifies, and a refused creation leaves no account behind.",
["schedules","histories","inputs"],"all policies, tokens and expiry times, two concurrent creations, all bounded histories",
"Tests present one token in sequence.",
["zkserver/pending.go","zkserver/zkserver.go"],[("validToken/addPending","zkserver/pending.go"),("handleAccountCreate","zkserver/zkserver.go")],None,["replies; account directory"])
p("V05","Before login only account creation and server identification are possible",
"A connection that has not completed the authenticated key exchange as an existing, enabled account gets no session: it can identify the server and attempt account creation, and everything else is refused without affecting any account. A disabled or unknown account never gets a session.",
["inputs","histories"],"all command strings and payloads before login, all account states",
"Tests only cover the happy path.",
["zkserver/zkserver.go"],[("preSession","zkserver/zkserver.go")],None,["session table; replies"])
p("V06","A newer login always takes over and an account never gets stuck",
"When an account logs in while an older session of it exists, the older session is ended (the attempt itself may be turned away, to be repeated); once the older one is torn down a login succeeds. Whatever order the startup and teardown steps of its sessions run in, whatever step of them fails and however little a client reads, an account whose sessions have ended can log in again, and the live session stays registered and keeps working.",
["schedules"],"all interleavings of setup and teardown of two sessions of one account",
"Tests never overlap two sessions of the same account.",
["zkserver/zkserver.go","zkserver/account/account.go"],[("session map and online/offline","zkserver/zkserver.go handleSession")],None,["session table, online table"])
p("V07","The server's admin interface survives any request",
"Whatever bytes are written to the administration socket, the server answers or closes that connection, never crashes, and changes an account's status only for a well-formed request naming an existing account. Disabling an account ends its session, and no other session is affected.",
["inputs"],"all request headers and payloads up to the bound",
"Tests do not touch the socket.",
["zkserver/zkserver.go","zkserver/socketapi/socketapi.go"],[("handleIdentityDisable/Enable","zkserver/zkserver.go")],None,["replies; account status"])
p("V08","Directory: a nick is answered with exactly the identity listed under it",
"Looking a nick up yields the identity, exactly as it was registered, of the account that is listed under that very nick, or an error; an account is listed only once it was online while the server kept a directory. No other account, be it disabled, incomplete, damaged or just being made, keeps a listed user from being found.",
["inputs","schedules","histories"],"all nicks within the bound, all states of another account, all interleavings with a creation, a login or a disabling",
"Tests look up one nick among good accounts.",
["zkserver/account/account.go","zkserver/account.go"],[("Find/Push","zkserver/account/account.go"),("handleIdentityFind","zkserver/account.go")],None,["replies"])
p("T01","Exports carry exactly what is there, and imports replace nothing unasked",
"A record that zkexport makes holds the public identity, certificate, address and directory flag of the very server, or the public identity of the very client, that it is asked for; if something is missing there is an error instead. zkimport reads such a record unchanged. A server's record becomes the client's server, with exactly the values of the record, only if its identity verifies and the user answered yes (or forced it), and it replaces another server only by force. A client's record becomes an enabled account with exactly that identity if the identity verifies and has no account yet. What is refused changes nothing, and other accounts and the user's own identity always stay.",
["inputs"],"all identities, altered identities, certificates, answers and prior states of client and server within the bound",
"Tests cover none of the tools.",
["tools/zkexport/zkexport.go","tools/zkimport/zkimport.go"],[("fetchServerRecord/fetchClientRecord","tools/zkexport/zkexport.go"),("readBlob/importServerRecord/importClientRecord","tools/zkimport/zkimport.go")],None,["myserver.ini and the account directory"])
p("P01","Configured policies are honoured exactly, and what is not configured stays off",
"Loading a configuration either fails or yields exactly what the file says: the account creation policy is one of yes, no and token, switches are yes or no in any capitalisation, limits are decimal numbers, paths have the home directory filled in. Anything else is refused. A setting that the file does not mention in its section keeps its default, which creates no accounts, does not identify the server, keeps no directory and saves no history, and no setting influences another one.",
["inputs"],"all texts of a setting within the bound, in its own and in a wrong section",
"Tests cover no configuration.",
["zkserver/settings/settings.go","zkclient/settings.go"],[("Load","zkserver/settings/settings.go"),("ObtainSettings","zkclient/settings.go")],None,["the settings structure"])
p("H01","The history of a conversation holds exactly what was said in it",
"Whatever is shown in a conversation with a contact or in a group, and whatever is printed on the console, is appended to the history of that conversation: once, in order and verbatim, across restarts. Every contact, every group and the console has a history of its own, whatever nicks the contacts chose for themselves, and all histories of conversations are files directly in the client's log directory: no nick, group name or text makes the client write anywhere else.",
["inputs","histories"],"all nicks and texts within the bound, clashing and path-like nicks, all bounded sequences of messages received and typed, with a restart",
"Tests cover no history; nicks with path separators and texts that are formats never occur in them.",
["zkclient/zkclient.go","debug/debug.go"],[("printf/log","zkclient/zkclient.go"),("Log/log","debug/debug.go")],None,["the log files"])
p("C01","Group chats: only the administrator changes membership, and members agree",
"A member's copy of a group changes only on a message from the user who administers that group, and then becomes exactly the list sent, which must still name that user as its administrator; messages from anybody else change nothing. The administrator's own list changes only by its own commands, an invited user joining or a member leaving. Once all messages have arrived, every member has the administrator's list. Only members' messages are shown in a group. What is in memory is what is stored.",
["inputs","histories"],"all senders, group names, generations and member lists within the bound, all bounded sequences of group messages",
"Tests cover none of the group handling.",
["zkclient/groupchat.go","zkclient/groupinvites.go","zkclient/push.go"],[("handleGroupList/handleGroupKill/handleGroupPart/handleGroupMessage","zkclient/groupchat.go")],None,["stored group list"])
p("C02","Joining a group needs an unexpired invitation, and each works once",
"A user is added to a group only by answering, with its own identity and the right token, an unexpired invitation that the administrator sent to that very user; each invitation adds its user at most once, and an invited user joins only groups whose invitation it accepted. An invitation that was accepted is gone; no other is lost by it.",
["inputs","histories"],"all senders, tokens, group names and clock values, all bounded invite/join sequences",
"No tests cover invitations.",
["zkclient/groupinvites.go","zkclient/groupchat.go"],[("invite/join bookkeeping","zkclient/groupinvites.go")],None,["group lists and invitation records"])
p("C03","Received files stay in the download area and are exactly what was sent",
"Whatever file name a peer announces, a received file is written only inside the download area; a file is presented as complete only if all of its pieces arrived in order and its digest matches, and then its content is exactly what was sent.",
["inputs","histories"],"all file names within the bound, all chunk orders, sizes, digests",
"No test receives a file with a hostile name.",
["zkclient/chunk.go","zkclient/push.go"],[("handleChunkNew/handleChunk","zkclient/push.go")],None,["paths opened, file content"])
p("C04","Client: no pushed message from a peer or server can crash the client",
"Whatever a peer puts inside an encrypted message, or the server inside a pushed or reply message, the client handles it, reports an error or closes the connection; it never crashes or hangs.",
["inputs"],"all payload kinds, encodings, tags, field values and lengths up to the bound, in all group/file states within the bound",
"Tests never feed malformed messages.",
["zkclient/push.go","zkclient/zkclient.go","zkclient/groupchat.go"],[("handlePush/handleRPC","zkclient/push.go, zkclient/zkclient.go")],None,["process survival"])
p("C05","Client: outgoing messages are sent in order, exactly once, across reconnects",
"Messages that a user queues are transmitted in the order they were queued for each kind, none is lost or duplicated within a connection, and the per-message callbacks match the acknowledgement of the very message they belong to.",
["schedules","histories"],"all interleavings of enqueue, completion and acknowledgement within the bound",
"Tests cover none of it.",
["zkclient/msg.go","zkclient/zkclient.go"],[("scheduler","zkclient/msg.go")],None,["order of sent messages"])
p("C06","Ratchet state on disk survives a crash at any point of an update",
"If the client dies at any point while updating a contact's saved ratchet, then after a restart the contact's ratchet is loaded in either its old or its new state; the contact is never lost and the state never corrupt. A failed update is reported.",
["crash_points","fault_sequences"],"every point between and inside the file operations of an update",
"Tests never crash the client.",
["zkclient/zkclient.go"],[("updateRatchet/loadRatchet","zkclient/zkclient.go")],None,["ratchet loaded after restart"])
p("C07","Nobody can impersonate another user in the contact key exchange",
"A contact is added, or its keys replaced, only with an identity that verifies, that is the one which the server-authenticated sender of the exchange really has, and that the user accepted or invited; a bad or mismatched identity changes nothing.",
["inputs"],"all identity fields and all senders",
"No tests cover the client's key exchange.",
["zkclient/zkclient.go","zkclient/identity.go"],[("step2IDKX/step3IDKX","zkclient/zkclient.go")],None,["address book and ratchet files"])
p("C08","Address book: nicks and identities stay unique and lookups are exact",
"At any moment every identity and every nick names at most one contact, a lookup by nick or identity returns exactly the contact added under it, deleted contacts are gone under both, and renaming on a clash never shadows another contact.",
["histories","inputs"],"all bounded sequences of adds, deletes, renames and lookups with colliding names",
"Tests use distinct names.",
["zkclient/addressbook/addressbook.go","zkclient/addressbook.go"],[("Add/Del/Find*","zkclient/addressbook/addressbook.go")],None,["lookup results"])
p("C09","The client talks only to the server that the user accepted",
"The client makes a session only with the server whose certificate and identity key the user accepted or imported; with any other certificate it sends nothing until the user accepts that one; an account is asked for only at a server with a genuine identity and certificate that the user was shown and accepted; a server is recorded only when there is a session with it, and what is recorded survives a restart.",
["inputs","histories"],"every server that identifies itself with any mixture of genuine and foreign certificates, identities and keys, any answers of the user, first start, restart and import",
"No tests cover the client's connection to the server.",
["zkclient/zkclient.go","zkclient/welcome.go","zkclient/acceptserverfingerprint.go"],[("preSessionPhase/goOnline","zkclient/zkclient.go"),("parseMyServer","zkclient/zkclient.go")],None,["bytes sent to the server","myserver.ini"])
p("C10","What is typed goes to exactly the contact or group it is meant for",
"Text typed in a window is sent, unchanged but for trailing blanks, to the contact or the members of the group of that window and to nobody else; a command acts on exactly the contact or group that it names by the name the user knows it by; messages are shown in the window and under the nick of their sender; contacts keep their nicks, and saved windows their meaning, over a restart; no line that is typed, also while windows are closed and messages arrive, crashes or hangs the client.",
["inputs","histories","schedules"],"all typed texts and commands, with contacts and groups whose names clash or contain blanks, in any window, before and after a restart",
"No tests cover the client's command line.",
["zkclient/mainwindow.go","zkclient/zkclient.go","zkclient/addressbook.go","zkclient/groupchat.go"],[("action","zkclient/mainwindow.go"),("getConversation","zkclient/zkclient.go"),("loadIdentities","zkclient/addressbook.go")],None,["messages queued for sending","contents of the windows"])
p("C11","Groups survive a crash or a failure at any point of a change",
"If the client dies while one of its groups is created, joined, changed, left or killed, after a restart that group has either its old or its new list and all other groups are as they were, and all can be changed again. If the change cannot be stored, the group keeps its old list in memory and on disk, the failure is reported and nobody is told of the change. A group that is gone stays gone.",
["crash_points","fault_sequences"],"every point between and inside the file operations of every kind of change of a group",
"Tests never crash the client or let its disk fail.",
["zkclient/groupchat.go","zkclient/push.go","zkclient/zkclient.go"],[("_gcSaveDisk/_deleteGroup","zkclient/groupchat.go"),("_updateGroupList/loadGroupchat","zkclient/zkclient.go"),("handleGroupJoin/handleGroupPart","zkclient/push.go")],None,["groups loaded after restart","groups in memory, messages queued"])
