#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os

P = []
def prop(id, title, statement, over, text, why, files, mech, observe, hook=None, state=None):
    assert len(title) <= 80, (id, len(title))
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "mechanism": [{"name": n, "where": w} for n, w in mech],
            "state": [{"name": n, "meaning": m, "where": w} for n, m, w in (state or [])],
            "observe_at": observe,
            "hook_needed": hook,
        },
    })

STD = "none in /repo: the checks build the code under test against a standard library with hooks (go build -overlay)"

prop("C01", "IDs, usernames and addresses are unique, and each name finds its own user",
 "After any history of operations (successful, refused or failed on I/O) and reopenings, no two users of a database share an ID, a username or an e-mail address, compared without letter case, and adding a user with a taken username or address is refused. A username or address, in any letter case, always identifies exactly the user who registered it, for login, identification and every per-user operation. Any other text identifies nobody.",
 ["histories", "inputs"], "all sequences of add-user attempts over colliding names in all letter cases, interleaved with reopening and failed saves, with every name probed in every state",
 "database_test.go adds two users and probes three fixed collisions in one order; it never mixes case across reopening, failed saves or names that are a username for one user and an address for another.",
 ["database.go", "user.go", "email.go"],
 [("lower-cased reference maps for ID, username and address", "database.go:NewDatabase, AddUser, getUser, getUserByUsername, getUserByEmailAddress")],
 ["AddUser", "AuthenticateUser", "IdentifyUser", "GetUser", "GetUserCount", "NewDatabase"], STD,
 [("refUsername/refEmailAddress/refID", "name to user", "database.go")])

prop("C02", "Operations act only on the user whose username and address both match",
 "Every operation on behalf of a user (reading users, one user, keys or tokens, changing the password, adding or deleting keys and tokens) succeeds only when the given username and e-mail address, in any letter case, both belong to one and the same user, and is refused otherwise without any effect. It reads or changes the data of that user only: everything the other users have, and what authenticates them, stays the same. An ID of another user's key or token is treated as not found.",
 ["histories", "inputs"], "all pairs of (username, address) from two or three users and unknown names, in all letter cases, for every operation, in every state reached by short histories in which the users hold keys, tokens and passwords",
 "The tests call each operation with one matching and one or two mismatching pairs in a single-state database; cross-user effects are never observed.",
 ["database.go", "user.go"],
 [("validateUserIdentity compares the users found by username and by address", "database.go:validateUserIdentity and its callers")],
 ["every Database method taking a request"], STD)

prop("C03", "Exactly a user's current password authenticates",
 "At any point of any history, including reopening the database and failed changes, a user authenticates by username or by address with the password most recently set for that user, and with no other text: no earlier password, no password of another user, no variation in letter case, in surrounding or inner white space, or in length within the first 72 bytes. A password is changed only when the current one is presented. A password that is given decides alone, whatever else the request holds. The response code is 200 when authentication succeeds and 400 when it is refused.",
 ["histories", "inputs"], "all histories of password changes (right, wrong and policy-violating), reopenings and failed saves for two users up to a depth, rotations up to and beyond the retention limit, and every variation of every password ever used as login attempt",
 "The tests change a password once; the state space is the history of all passwords of all users, and every text ever used must be refused later.",
 ["database.go", "user.go", "password.go"],
 [("older passwords are disabled when a new one is set, and skipped on verification", "user.go:AddPassword, VerifyPassword; database.go:AuthenticateUser, ChangeUserPassword")],
 ["AuthenticateUser", "ChangeUserPassword"], STD)

prop("C04", "An API key authenticates exactly its owner from creation until deletion",
 "The key text returned by a successful key creation authenticates exactly the user it was created for, reporting that user's username and address, from then on until that key is deleted, whatever else happens in between, including reopening the database. A key created as disabled, a deleted key, a key with any of its first 72 characters altered or removed, and any other text never authenticate. Listing returns exactly the user's keys that are neither deleted nor disabled, and deleting one key leaves all others working.",
 ["histories", "inputs"], "all histories of creating (enabled, disabled, malformed), deleting (own, foreign, unknown, twice), looking up and listing keys of two users, interleaved with reopening and failed saves",
 "The tests create and delete one or two keys in one order and look up a valid one; deletion orders, disabled keys, reopening between steps and altered keys are not enumerated.",
 ["database.go", "user.go", "api_key.go"],
 [("keys are found by prefix and verified against a bcrypt hash", "database.go:AddAPIKey, DeleteAPIKey, LookupAPIKey; user.go:LookupAPIKey")],
 ["AddAPIKey", "GetAPIKeys", "DeleteAPIKey", "LookupAPIKey"], STD,
 [("refAPIKey", "key prefix to user", "database.go")])

prop("C05", "A user's public keys are exactly those added and not yet deleted",
 "Listing a user's keys of one usage returns exactly the keys of that usage which were added, not as disabled, and not deleted since, in the order of addition with the stored attributes, in every history including reopening. The same key is never stored twice for a user, in whatever form it is given, and can be added again after its deletion. Deleting by ID removes exactly that key; an unknown ID is refused without effect.",
 ["histories", "inputs"], "all histories of adding SSH and GPG keys in different encodings (enabled, disabled, malformed), deleting and listing for two users, with reopening and failed saves",
 "The tests add at most one key of each form to a fresh user; re-adding, cross-encoding duplicates and order after deletions are not explored.",
 ["database.go", "user.go", "public_key.go"],
 [("duplicates are recognised by type and fingerprint", "user.go:AddPublicKey, DeletePublicKey; database.go:GetPublicKeys")],
 ["AddPublicKey", "GetPublicKeys", "DeletePublicKey"], STD)

prop("C06", "A user's MFA tokens and challenges are exactly those configured",
 "Listing a user's MFA tokens returns exactly the tokens added, not as disabled, and not deleted since, with their parameters, in every history including reopening; two tokens of a user never share a secret or a comment, and deleting by ID removes exactly that token. Identifying a user reports the stored username, address, name and roles, requires a password, and additionally MFA exactly while the user has a token that is not disabled (unspecified while all are disabled). The flags, when asked for, tell whether an enabled app token and an enabled security key exist.",
 ["histories", "inputs"], "all histories of adding (TOTP and security key; enabled, disabled, duplicate, invalid), deleting and listing tokens for two users, with reopening and failed saves, identification probed in every state",
 "The tests add a single token per user and check the challenge once.",
 ["database.go", "user.go", "mfa_token.go"],
 [("token list of the user, flags and challenges derived from it", "user.go:AddMfaToken, DeleteMfaToken, GetFlags, GetChallenges; database.go:IdentifyUser")],
 ["AddMfaToken", "GetMfaTokens", "DeleteMfaToken", "IdentifyUser"], STD)

prop("C07", "An operation that reports an error has changed nothing",
 "When an operation reports an error, because the request is refused or because any file-system call made while saving fails or writes only part of the data, the database behaves afterwards, in memory and when reopened from its file, as if the operation had never been called, and it keeps working: the same operation succeeds once the cause is gone. An operation that reports success is fully effective in memory and in the file.",
 ["fault_sequences", "histories"], "every operation, in every state of a set of short histories, with every file-system call it makes failing with every error or short write of a menu (one fault, and in the thorough tier two), followed by observation, reopening and retry",
 "The only failing save in the tests is a path that is a directory; what the database holds in memory after a failed save is never observed.",
 ["database.go", "user.go", "internal/utils/file.go"],
 [("changes are undone when the save fails, and the file is replaced only as a whole", "database.go:commit and its callers; internal/utils/file.go:WriteFileBytes")],
 ["every mutating Database method, NewDatabase, Save, Copy"], STD)

prop("C08", "What was acknowledged is in the file, complete, after reopening",
 "After every acknowledged operation, opening the database file gives a database that answers every query, listing, identification and authentication exactly as the live one does, with every stored attribute of users, passwords, keys, tokens and policy preserved. Reopening any number of times changes nothing a client can observe. A path beginning with a tilde denotes the same file when written and when reopened.",
 ["histories"], "all histories up to a depth over all mutating operations, with a reopening and full comparison after every step, for policies and attributes away from their defaults",
 "The tests reopen the database in two places only, and compare the user count.",
 ["database.go", "user.go", "mfa_token.go", "api_key.go", "public_key.go", "password.go", "internal/utils/file.go"],
 [("every mutating operation ends with a save of the whole database as JSON", "database.go:commit, NewDatabase")],
 ["NewDatabase", "all getters"], STD)

prop("C09", "A crash at any moment leaves a complete database, before or after",
 "If the process or the machine stops at any moment while a database is being created, changed, saved or copied, with data not yet synced lost or torn in any combination, then the file, if it exists, opens and holds either the complete state before the interrupted operation or the complete state after it. Every operation acknowledged before the stop is retained. A crash while copying leaves the original untouched and the target either as before or a complete copy.",
 ["crash_points"], "every prefix of the sequence of file-system effects of every operation, and for each every combination of lost or torn unsynced writes and unsynced directory changes",
 "No test stops the process inside a save.",
 ["database.go", "internal/utils/file.go"],
 [("write to a temporary file, sync, rename", "internal/utils/file.go:WriteFileBytes")],
 ["NewDatabase on every crash image"], STD)

prop("C10", "Concurrent operations behave as if run one at a time",
 "Operations called concurrently on one database behave as if they had run one at a time in an order consistent with real time: every result, and the state left in memory and in the file, is that of such an order, under every interleaving. No interleaving deadlocks or keeps an operation from finishing. This includes reading the path while copying, identification, authentication and key lookup during changes.",
 ["schedules"], "every interleaving, up to a preemption bound, of two or three goroutines with one or two operations each, scheduling points at every lock operation, system call, clock and random read and hash computation",
 "The existing tests are single-threaded.",
 ["database.go"],
 [("one read-write lock per database", "database.go: db.mu in every method")],
 ["results of all Database methods; reopened file"], STD)

prop("C11", "Concurrent use is free of data races",
 "No two goroutines that concurrently call operations of a database, read results it returned earlier, authenticate with passwords, keys or security keys, or construct passwords, keys, tokens, IDs and random strings, ever access the same memory without synchronisation when one of the accesses is a write. This holds in every interleaving.",
 ["schedules"], "every pair (and selected triples) of operations, including constructors and readers of earlier results, in every interleaving up to a preemption bound, with every pair of conflicting accesses not ordered by the code's own synchronisation counting as a race",
 "The existing tests are single-threaded and not run under the race detector.",
 ["database.go", "user.go", "mfa_token.go", "random.go", "uuid.go"],
 [("database lock, lock of the random source, lock of the derived key", "database.go, random.go, mfa_token.go")],
 ["race detector state after every schedule"], STD)

prop("C12", "Secrets are stored only as salted hashes, in files private to the owner",
 "No text of a password or API key is ever present in the database file, in any other file left in its directory, in a user listing or in a key listing: only bcrypt hashes of cost 10 or more, each with its own salt, are kept. Database files, copies and intermediate files are at no moment accessible to group or others unless the existing file already was, directories are created for the owner only, and saving never widens the permissions of an existing file.",
 ["histories", "fault_sequences"], "all histories up to a depth over operations with passwords and keys, with files and permissions inspected after every file-system effect, including under injected faults",
 "The tests never look into the file or at its mode.",
 ["database.go", "password.go", "api_key.go", "user.go", "internal/utils/file.go"],
 [("bcrypt hashing before storing; mode 0600 and 0700", "password.go:hash; database.go:AddAPIKey, commit, NewDatabase")],
 ["file contents and modes; GetUsers, GetAPIKeys, GetUser"], STD)

prop("C13", "TOTP codes validate exactly within one period of the right time",
 "For every secret, hash algorithm, number of digits, period and time, a text validates if and only if, apart from surrounding white space, it is the RFC 6238 code of the period containing that time, of the one before or of the one after. Registering an app token requires supported parameters (SHA-1, SHA-256 or SHA-512; period of 30 to 300 seconds; 4 to 8 digits) and a passcode that is the code of the current or the previous period; a passcode that is the code of no period within two of the current one is refused.",
 ["inputs"], "the product of algorithms, digits, periods, secrets, times at all positions relative to period boundaries, and candidate codes: all codes of neighbouring periods, and for four digits every code",
 "The tests validate one code per algorithm at the present time; an off-by-one window, a truncation error or a lost leading zero shows only for particular times and secrets.",
 ["mfa_token.go"],
 [("HMAC truncation and three-step window", "mfa_token.go:ValidateCodeWithTime, generateMfaCode, NewMfaToken")],
 ["MfaToken.ValidateCode, ValidateCodeWithTime, NewMfaToken, AddMfaToken"], STD)

prop("C14", "A WebAuthn request authenticates only with a genuine, matching assertion",
 "A WebAuthn request authenticates a user if and only if it names an enabled security key registered by that user, its client data have type webauthn.get, are not cross-origin and carry the challenge that was issued, its authenticator data carry the registered relying-party hash and the user-present flag, and its signature over exactly these data verifies under the registered key. Every other request (altered, truncated, malformed, for another user's, a deleted or a disabled key) is refused with code 400 and never crashes.",
 ["inputs", "histories"], "the product of deviations of every component of an assertion from a valid one, alone and in pairs, for keys in every state (own, foreign, disabled, deleted, after reopening)",
 "There is no test of WebAuthn authentication at all.",
 ["mfa_token.go", "webauthn.go", "user.go", "database.go"],
 [("checks on client data, authenticator data and signature", "mfa_token.go:WebAuthnRequest, derivePublicKey, unpackAuthData; user.go:VerifyWebAuthnRequest")],
 ["AuthenticateUser, MfaToken.WebAuthnRequest"], STD)

prop("C15", "WebAuthn registration accepts only complete, supported keys and never crashes",
 "Registering a security key succeeds only when a challenge is given and the registration decodes to an ID, the type public-key, transports among usb, nfc, ble and internal, a non-empty relying-party hash, flags, and an ES256 public key on P-256; otherwise it is refused with an error. No registration, however malformed, crashes. A security key registered with its true coordinates authenticates afterwards, also after reopening.",
 ["inputs"], "every replacement of every part of a complete registration document by every value of a menu of wrong types, absences and boundary values, alone and in pairs",
 "The tests register one valid document.",
 ["mfa_token.go", "webauthn.go"],
 [("field by field validation", "mfa_token.go:NewMfaToken")],
 ["NewMfaToken, AddMfaToken, AuthenticateUser"], STD)

prop("C16", "Opening any file gives an error or a consistent database, never a crash",
 "Opening a file with any contents either fails with an error and leaves the file as it was, or gives a database in which user IDs, usernames, addresses and API-key prefixes are unique without regard to letter case of names, and on which every operation for every user returns without crashing. A path that is a directory, or that cannot be created or read, is an error.",
 ["inputs", "fault_sequences"], "every truncation of a full database file, every replacement, removal or duplication of every JSON value by a menu of other values, all duplications between users, each followed by every operation; every failing file-system call while opening",
 "The tests open a directory and an unreadable path; no malformed contents are tried.",
 ["database.go", "user.go", "internal/utils/file.go"],
 [("validation while building the reference maps", "database.go:NewDatabase; user.go:Valid")],
 ["NewDatabase and all operations afterwards"], STD)

prop("C17", "Names and passwords obey the configured limits, which are reported truthfully",
 "A database accepts a new user, or a new password, only if the lengths in bytes of username and password lie within the configured minimum and maximum, and does not refuse one within them for its length; limits left out of the file are 3 to 50 for usernames, 8 to 128 for passwords and 10 kept passwords, and configured values are preserved by saving. The policy descriptions and regular expressions state exactly the configured limits and character requirements.",
 ["inputs", "configurations"], "all combinations of small limits and flags with all lengths around them, for adding users and changing passwords, before and after reopening",
 "The tests use the default policy and a handful of lengths.",
 ["database.go"],
 [("length checks and policy texts", "database.go:checkPolicyCompliance, enforceDefaultPolicy, GetUsernamePolicyRegex and siblings")],
 ["AddUser, ChangeUserPassword, Get*Policy*"], STD)

prop("C18", "Public keys are recognised by their material, whatever their encoding",
 "A public key is accepted if and only if it is well formed and fits its usage: an RSA key with a positive modulus, as a SubjectPublicKeyInfo block labelled RSA PUBLIC KEY or in OpenSSH form, for ssh; a single armored PGP key (RSA, DSA or ECDSA), with nothing but white space around it, for gpg; anything else is refused with an error, never a crash. The recorded type, fingerprints and OpenSSH text are those of the key material, equal for every encoding, comment and white space around the same key, and different for different keys.",
 ["inputs"], "all keys of a set in all encodings, with all comments, white space, usages and labels of a menu, and every truncation and single-character corruption of each",
 "The tests parse one key in each form and check type and comment; fingerprints are never compared.",
 ["public_key.go"],
 [("parsing by payload form, fingerprints over the SSH wire form", "public_key.go:parse and parsePublicKey*")],
 ["NewPublicKey, AddPublicKey"], STD)

prop("C19", "A provisioning code carries exactly the token's parameters",
 "For every valid description of a one-time-password token the provisioning text is an otpauth URI whose type, label, secret, issuer, algorithm, digits, counter and period, read with standard URI, form and base32 decoding, are exactly those described (with 6 digits and 30 seconds when left out), so that an authenticator set up with it produces codes which the token with the same parameters validates; the encoded form is the base64 of that text. Descriptions without label or type, with an algorithm other than SHA-1, SHA-256 and SHA-512, with a secret shorter than 6 bytes, or with parameters out of range (digits 4-8, period 30-180, counter of a hotp token from 1) are refused.",
 ["inputs"], "the product of types, labels and issuers with every reserved character, secrets of all byte values and lengths, algorithms in any letter case, digits, periods and counters at and beyond their limits",
 "The tests build three codes with one label and one secret.",
 ["pkg/qr/qr.go", "mfa_token.go"],
 [("URI construction and validation", "pkg/qr/qr.go:Build, validate")],
 ["qr.Code Build, Get, GetEncoded; MfaToken.ValidateCodeWithTime"])

prop("C20", "E-mail addresses, names and roles are parsed exactly and come back unchanged",
 "An e-mail address is accepted exactly when it matches the HTML5 grammar, with the part after the at sign as its domain. A full name is accepted exactly when it consists of two non-empty parts, either as last, first or as first last, and reads back as last, first. A role is text with a name, optionally preceded by an organisation and a slash; duplicates are dropped, empty ones refused, and identification returns the user's address, name and roles as registered, in order.",
 ["inputs"], "all strings up to a length over an alphabet of one representative per character class, and all short lists of roles",
 "The tests try a few typical strings.",
 ["email.go", "name.go", "role.go", "user.go"],
 [("regular expression, splitting, rendering", "email.go:NewEmailAddress; name.go:ParseName, GetFullName; role.go:NewRole, String; user.go:AddRole, HasRole")],
 ["NewEmailAddress, ParseName, NewRole, User.AddRole/HasRole, IdentifyUser"])

prop("C21", "Revisions count changes, and modification times never go back",
 "Every acknowledged change, save or copy of a database gives it a higher revision than any before, both in memory and in the file written; operations that only read, and refused or failed operations, leave the revision of the database and of every user as it was. A change of one user raises that user's revision and modification time and no other user's. With a clock that does not go back, recorded modification times never decrease, also across reopening.",
 ["histories", "fault_sequences"], "all histories up to a depth over successful, refused, failing and read-only operations, with reopening, checked at every step",
 "The tests never read a revision.",
 ["database.go", "user.go"],
 [("revision counters incremented on change", "database.go:commit; user.go:Revise")],
 ["the file, GetUsers, GetUser"], STD)

prop("C22", "A failed login does not reveal whether the user exists",
 "A password login for a name that does not exist is refused with the same response code, and after the same number of password-hash computations of the same cost, as a login for an existing user with a single current password and a wrong guess, for every non-blank guess. Identification of an unknown name succeeds and reports one fixed identity, without name and roles, that asks for a password, whatever the name, the contents of the database and what a previous identification left in the request.",
 ["inputs", "histories"], "all guesses of a menu (every length class, with white space, over-long, of other users, earlier ones) for unknown and existing users by username and by address, in databases in all states of short histories",
 "The tests check the error text of one unknown user; hash work is never counted.",
 ["database.go", "password.go"],
 [("a hash is computed for unknown users", "database.go:AuthenticateUser, IdentifyUser")],
 ["AuthenticateUser, IdentifyUser; count of hash computations"], STD)

prop("C23", "The history of kept passwords is bounded by the policy",
 "After any number of password changes a user's record holds the current password first, enabled, followed by the most recent earlier ones, newest first, all disabled and marked expired. There are never more earlier ones than the configured number of kept versions (ten by default), and none within that number is missing. This holds for users created by the database and after reopening.",
 ["histories", "configurations"], "all numbers of changes from zero to beyond the limit for all small limits, with reopenings and failed or refused changes in between",
 "The tests change a password once.",
 ["user.go", "database.go"],
 [("retention loop", "user.go:AddPassword; database.go:ChangeUserPassword")],
 ["GetUser, the file"], STD)

prop("C24", "A result, once returned, does not change",
 "A user, user listing, key listing or token listing returned by an operation is a snapshot: no later operation on the database, by whomever, changes anything readable from it. Two results of the same query in the same state are equal.",
 ["histories"], "every kind of result taken in every state of short histories, compared with itself after every following sequence of operations up to a depth",
 "The tests inspect results at once and drop them.",
 ["database.go", "user.go"],
 [("results are copies; stored entries are not modified in place", "database.go:GetUser, Get*; user.go:AddPassword")],
 ["payloads of GetUser, GetUsers, GetPublicKeys, GetAPIKeys, GetMfaTokens"], STD)

prop("C25", "A copy is a complete database, and copying changes nothing else",
 "A successful copy leaves, at the target path, a file that opens as a database answering every query and authentication exactly as the source does, replacing what was there. The source keeps its path, contents and file, and later changes to either do not affect the other. A failed copy leaves source and target as they were, and later operations still save to the source's file.",
 ["histories", "fault_sequences"], "all histories up to a depth mixing changes, copies to new, existing, and impossible targets, saves and reopening of either file, with every file-system call of the copy failing",
 "The tests copy once to a valid path and once to a directory.",
 ["database.go"],
 [("the path is switched during the save", "database.go:Copy, commit, GetPath")],
 ["Copy, GetPath, NewDatabase on the target"], STD)

prop("C26", "Random texts keep their form and IDs and key prefixes stay unique",
 "Whatever numbers the random sources deliver, random strings have the requested length (the default for lengths below one, and a length within the half-open range for ranges in either direction) and only letters and digits, and user IDs have the form of a version-4 UUID. No sequence of random outcomes makes a new user take over an existing ID or a new API key an existing key's prefix, crashes, or makes an operation run forever: the operation retries or fails with an error. Processes that start a millisecond or more apart make different random strings, IDs and keys.",
 ["inputs", "fault_sequences"], "all outcomes of the random sources that repeat earlier values for any number of consecutive draws, and all lengths and ranges of a small domain with extreme outcomes",
 "With real randomness a collision never happens in a test.",
 ["random.go", "uuid.go", "database.go"],
 [("retry on collision", "database.go:AddUser, AddAPIKey; random.go")],
 ["AddUser, AddAPIKey, GetRandomString, GetRandomStringFromRange, NewRandomString, NewID"], STD)

prop("C27", "Errors identify themselves and never turn into success",
 "Every refusal by a database operation is an error that can be recognised with errors.Is as the documented error of that operation. An error built from a documented one with arguments is recognisable as it, renders its text with the arguments, and is absent exactly if the arguments include nil and no error: wrapping a real error never yields success, and wrapping nil never yields an error.",
 ["inputs"], "all tuples of up to three arguments from a menu (errors, nil, texts, numbers, nested errors) for every format, and every refusal of every operation",
 "The tests compare texts of some errors.",
 ["pkg/errors/errors.go", "pkg/errors/database.go", "database.go"],
 [("StandardError.WithArgs and Unwrap", "pkg/errors/errors.go")],
 ["errors.Is, Error(), returned errors of all operations"])

prop("C28", "Struct tag checks report exactly the non-compliant fields",
 "The struct tag checker accepts a struct exactly when every exported field carries json, xml and yaml tags equal to its name in snake case (with the omit-empty option unless that is switched off), up to the first tag that is a dash, and otherwise returns an error with one line per missing or differing tag; unexported fields are ignored, and each option switches off exactly the checks it names.",
 ["inputs", "configurations"], "all structs of up to two fields with every combination of absent, right, wrong, dash and option-less tags, under all option combinations",
 "The test runs the checker over the project's own structs, nearly all compliant.",
 ["internal/tag/tag.go"],
 [("reflection over fields", "internal/tag/tag.go:GetTagCompliance")],
 ["GetTagCompliance"], "none in /repo: a bridge package is added by go build -overlay, because the package is internal")

prop("C29", "A credit card takes only a listed issuer or association",
 "Adding an issuer to a card sets the first listed issuer whose name or alias equals the given text, exactly or as its lower-case form; adding an association sets the listed one with exactly that name. Any other text is an error that leaves the card as it was, and an error or success of one never touches the other.",
 ["inputs", "configurations"], "all sequences of up to four additions over all listed names, aliases, case variants and near misses, for all small issuer lists",
 "The tests construct an empty card.",
 ["credit_card.go", "credit_card_association.go", "credit_card_issuer.go"],
 [("linear search", "credit_card.go:AddIssuer, AddAssociation")],
 ["CreditCard.AddIssuer, AddAssociation"])

prop("C30", "A user record holds exactly what its methods were given",
 "A user record changed through its own methods holds exactly the e-mail addresses, names, roles, passwords, public keys, API keys and MFA tokens that were accepted and not deleted since, in the order added and none twice; the first address and the first name stay the primary ones. Its accessors (mail, name and role claims, full name, metadata, role and address tests, challenges, flags, validity, password, API key and assertion checks) report exactly these. A change that is refused, or an address, name or role that is already there, changes nothing; every other addition, deletion or password change raises the revision by one and advances the modification time; and no change of one record affects another. NewUserWithRoles gives the record that the separate additions give, with revision zero, or an error and no record.",
 ["histories", "inputs"], "all sequences of up to three changes (four in the thorough tier) from a menu of 60 accepted, refused and repeated values of every kind on two records, and the product of menus of the five arguments of NewUserWithRoles",
 "The tests apply single additions to fresh users.",
 ["user.go", "email.go", "name.go", "role.go", "password.go", "api_key.go", "mfa_token.go", "public_key.go"],
 [("the methods of User", "user.go")],
 ["all methods of User"])

prop("C31", "A disabled or expired credential authenticates nobody",
 "A password, API key or security key that is marked as disabled or as expired, at creation, by its Disable method, by a password change or in the database file, authenticates nobody, in every history and across reopening; a current password that is so marked cannot be used to change the password; and API keys, public keys and MFA tokens that are marked as disabled are not listed. Marking one credential leaves every unmarked one, of any kind and any user, working and listed. Disable sets both marks with the current time.",
 ["configurations", "histories"], "every assignment of the four combinations of marks to three credentials of one user and one of another for every kind, all pairs of marked credentials of different kinds, each followed by every operation of a menu and reopening; every subset of the credentials of a record disabled by their method",
 "The tests never load or use a disabled or expired credential.",
 ["user.go", "database.go", "password.go", "api_key.go", "mfa_token.go", "public_key.go"],
 [("tests of Disabled and Expired", "user.go:VerifyPassword, LookupAPIKey, VerifyWebAuthnRequest; database.go:GetAPIKeys, GetPublicKeys, GetMfaTokens")],
 ["AuthenticateUser, LookupAPIKey, ChangeUserPassword, Get*; the Disable methods"], STD)

prop("C32", "An operation uses only its own part of a request",
 "The result, the answer and the effect of a database operation depend only on the fields of the request that belong to it: the user fields that name the user (and, for AddUser and ChangeUserPassword, the data and passwords given); of the key fields usage, comment, payload and the disabled mark for additions, the ID for deletions, the usage for listings and the payload for lookups; of the token fields the data of the new token for additions and the ID for deletions; the passcode, registration, request and challenge where the credential is one; the password alone when one is given to AuthenticateUser. Whatever any other field holds, such as what an earlier operation with the same request left there, changes nothing, and the operation leaves fields that are not its own as they were.",
 ["inputs", "configurations"], "every operation of a menu (accepted, refused, failing to save) for every other field of the request with every value of a menu, all other fields at once, and pairs of fields; compared with the execution with a clean request under the same time and randomness",
 "The tests set up a fresh request for every call.",
 ["database.go", "user.go", "api_key.go", "public_key.go", "mfa_token.go", "pkg/requests/"],
 [("reads of request fields", "database.go, user.go, api_key.go, public_key.go, mfa_token.go")],
 ["all operations of Database"], STD)

prop("C33", "Existing database files keep their meaning",
 "The database file is a JSON document with fixed members (those of the pinned revision: version, policy, revision, last_modified and users with their names, addresses, roles, passwords, public keys, API keys and MFA tokens), and holds exactly the state: bcrypt hashes of whole passwords and API keys, 24-character key prefixes, fingerprints, keys in both encodings, token parameters and flags, marks and times. A file with these members, written by this or an earlier version, whatever its order, white space and additional members, with members of zero value left out or not, with SSH fingerprints with or without the SHA256: prefix and passwords with or without an algorithm, can be opened and gives its users all their credentials: every one authenticates, is listed, is refused when added again and can be deleted by its ID. Every member that was in the file is there with the same value after any later save, unless an operation changed it.",
 ["histories", "inputs", "configurations"], "all histories of up to three operations (four in the thorough tier), with the file compared member by member with a document given by the model; hand-made files for a product of users, names, roles and credentials in several renderings; a file with every member through all pairs of operations and with each member left out or altered; a file written by the pinned revision",
 "The tests read files that the code under test wrote itself.",
 ["database.go", "user.go", "password.go", "api_key.go", "public_key.go", "mfa_token.go", "role.go", "email.go", "name.go", "image.go", "lockout.go", "location.go", "organization.go"],
 [("the JSON form of the records", "struct tags"), ("reading and completing a file", "database.go:NewDatabase")],
 ["NewDatabase, Save, all operations"], STD + "; passwords and API keys of hand-made and earlier files are verified with the real bcrypt against hashes of another implementation")

prop("C34", "Equal histories give equal outcomes, whatever the circumstances",
 "What an operation returns, leaves in its request, changes, writes to the file, and what all later operations answer, depends only on the policy, the operations that were executed on the database, the time and the random numbers drawn: not on the order in which maps happen to be iterated, the local time zone, the working directory, the environment variables, the file creation mask, what is done to other databases in the same process, or whether the database was opened anew in between. The same holds for the parsing of keys, names and cards. Of several identities of a PGP key the comment shows the primary one, or if none is marked always the same.",
 ["histories", "environments"], "all operations of a menu and pairs of them after a common history, in every circumstance of a list: all orders of iteration over small maps, alone and at each single iteration, local time zones, working directories, environment variables, file creation masks, other databases in use, reopening before every operation",
 "The tests run once, under one set of circumstances; a result that depends on chance passes most of the time.",
 ["database.go", "user.go", "public_key.go", "mfa_token.go", "credit_card.go", "name.go", "utils.go"],
 [("choice of an identity", "public_key.go:parsePublicKeyPGP"), ("times are taken in UTC", "time.Now().UTC()")],
 ["all operations of Database, NewPublicKey, NewMfaToken, ParseName, CreditCard"], STD)

prop("C35", "A credential record used directly accepts exactly what it was made for",
 "The records of credentials judge by themselves, without a database, and never crash. A security key record accepts a WebAuthn request if and only if it is of type u2f with complete parameters and the request names its ID, is of type webauthn.get and not cross-origin, is for its relying party, has the user present bit set, and is signed by the key of its coordinates, whatever requests it or other records judged before; the accepted request is reported with exactly its own data, flags and counter. One-time codes are accepted only by tokens of type totp (when judged at the present time) with a supported algorithm and 4 to 8 digits. NewPassword and NewPasswordWithOptions make a record of any non-blank text without NUL, for bcrypt only, with the cost asked for (10 if it is less than 8) and with the purpose given, and refuse costs that are too large or no integer with an error; the record matches that text and no other, and a damaged hash matches nothing. NewAPIKey keeps what it is given and requires a payload, a comment and usage api. Judging changes no record; Disable marks a record as disabled and expired from then on.",
 ["inputs"], "every deviation of a request alone, in turn with genuine ones and (thorough tier) in pairs, for every record with a damaged parameter; tokens with every combination of damaged members; every text x algorithm x purpose x parameters, matched against every text and with every truncation and character change of the hash; every combination of members of an API key request",
 "The tests build one record of each kind and use it once.",
 ["mfa_token.go", "password.go", "api_key.go", "webauthn.go"],
 [("judging a WebAuthn request", "mfa_token.go:WebAuthnRequest"), ("codes", "mfa_token.go:ValidateCodeWithTime"), ("hashing and matching", "password.go"), ("matching an API key", "api_key.go:Match")],
 ["MfaToken.WebAuthnRequest, ValidateCode, ValidateCodeWithTime, NewPassword, NewPasswordWithOptions, Password.Match, NewAPIKey, APIKey.Match, Disable"], STD + "; the bcrypt kernel is replaced except in one case")

prop("C36", "No request, however malformed, crashes or corrupts the database",
 "Whatever texts, numbers and lists a request holds (empty, blank or very long texts, NUL and control characters, invalid UTF-8, malformed encodings, negative and huge numbers, long lists, anything where a key, a registration or an ID belongs), every operation of the database returns, with success or with an error; it never crashes and leaves nothing locked. An operation that reports an error has changed nothing. After one that succeeds the users are unique, the reopened database equals the live one in everything that can be read, and all other users can log in and change the database as before; two users added with any names, addresses and roles that were accepted can both log in, before and after reopening. The methods of records, zero or genuine, and the constructors (given ranges of lengths that are not negative) never crash on such arguments either, and a method that reports an error leaves its record as it was.",
 ["inputs"], "every operation x every field of its own and every pair of them x a menu of hostile values, under two policies; all pairs of hostile names, addresses and roles of two users; every method of every record and every constructor x every hostile value of every argument; genuine keys, registrations and assertions with pieces missing or repeated; all short names, roles and addresses",
 "The tests give some twenty malformed values, each to one function.",
 ["database.go", "user.go", "api_key.go", "public_key.go", "mfa_token.go", "name.go", "role.go", "email.go", "password.go", "pkg/qr/qr.go", "credit_card.go"],
 [("validation of what is given", "database.go, user.go:Valid, public_key.go:parse, mfa_token.go:NewMfaToken, role.go, name.go, email.go")],
 ["all operations of Database, all constructors and methods of records"], STD)

prop("C37", "Requests and results belong to the caller",
 "Once an operation has returned, nothing that the caller does with its request or with its result has an effect on the database, on its file, on other requests or on other results: overwriting any member of a returned user, key, token or entry, replacing or appending elements in any list of theirs, changing their maps, adding to bundles, calling their methods, reusing the request. This holds whenever it is done, before or after further operations, and for results of any age.",
 ["histories", "inputs"], "every operation of a menu and every pair of them with everything reachable from requests and results overwritten at once or one operation later, compared with the execution in which they are left alone; every pair of results; all histories of four changes with results held since any moment",
 "The tests only read the results.",
 ["database.go", "user.go", "api_key.go", "public_key.go", "mfa_token.go", "password.go"],
 [("results are copies", "database.go:GetUser, GetUsers, GetPublicKeys, GetAPIKeys, GetMfaTokens; user.go:clone, GetMetadata")],
 ["all operations of Database"], STD)

prop("C38", "Errors and output reveal no secret",
 "The text of an error that an operation, a constructor or a method reports, at every level of wrapping, and whatever it writes to the standard output, the standard error and the log, contains no password (given, current, former or asked for), no API key beyond its prefix, no secret of a token, no one-time code, no WebAuthn challenge and no hash of a password or key, in no common encoding. This holds for refused requests of every kind, for failures of the file system, and for opening a database file that is damaged at any place.",
 ["inputs", "faults"], "every accepted and refused operation of the menus, every failing system call of every saving operation, every secret-bearing field x secrets of every shape, a genuine file with every value replaced and cut at every byte, and the constructors and methods that take secrets",
 "The tests compare the texts of some errors with those expected, for a few values.",
 ["database.go", "user.go", "password.go", "api_key.go", "mfa_token.go", "pkg/errors/", "pkg/qr/qr.go", "internal/utils/file.go"],
 [("arguments of errors", "errors.*.WithArgs at every return")],
 ["errors returned by all operations; standard output and error"], STD)

prop("C39", "An operation leaves nothing open, running or lying about",
 "When an operation of a database has returned, with success, a refusal or a failure of the file system, and likewise when opening a database has succeeded or failed, it has left no file open, no goroutine running, and no file besides the database and the targets of copies, unless the file system refused the removal itself. Operations that only read, and refused ones, write nothing to the file system. What a database keeps in memory depends on its contents only: repeated operations that read, are refused, or undo each other do not make it grow without bound.",
 ["inputs", "faults", "histories"], "every operation of a menu and every way to open a database x every choice of at most two failing system calls; every kind of operation repeated thousands of times with other texts each time",
 "The tests never look at what is left once a call has returned, and inject no faults.",
 ["database.go", "internal/utils/file.go", "password.go", "user.go"],
 [("writing and reading files", "internal/utils: WriteFileBytes, ReadFileBytes"), ("opening", "NewDatabase")],
 ["open descriptors, goroutines, files and memory of the process"], STD)

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
