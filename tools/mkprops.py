#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line). The texts live here so that they can be edited readably."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

core = "1pass-core/core/"
prop("C01", "Unlock succeeds exactly for a password that authenticates the vault profile",
 "Unlocking succeeds exactly when the entered password, stretched by PBKDF2-SHA512 with the salt and iteration count stored in the vault profile, authenticates and decrypts both the profile's master-key blob and its overview-key blob; the session keys are then exactly the ones derived from those two blobs. "
 "In every other case it fails with the invalid-password error and the session (its keys and its decoded items) is exactly what it was before.",
 ["inputs", "histories"], "every password, every profile (salt, iterations, key blobs), and every prior lock/unlock history of the session",
 "The tests unlock one sample vault with one right and one wrong password; they do not range over passwords, profiles, damaged key blobs or prior session states.",
 [core+"facade/vaultfacade.go", core+"service/keyservice.go", "1pass-parse/repo/file/profilerepo.go", "1pass-parse/util/pbkdf2/cryptoutils.go", "1pass-term/control/gocui/guicontrol.go"],
 [("Unlock", core+"facade/vaultfacade.go"), ("DerivedKeys, MasterKeys, OverviewKeys, DecodeKeys", core+"service/keyservice.go"), ("GetSalt, GetIterations, GetMasterKey, GetOverviewKey", "1pass-parse/repo/file/profilerepo.go")],
 [("keys", "session keys, absent while locked", core+"facade/vaultfacade.go")])
prop("C02", "Encrypted vault data is decrypted only after its MAC verifies",
 "An encrypted blob yields plaintext only if its last 32 bytes are the HMAC-SHA256, under the given MAC key, of everything before them, and the plaintext is then exactly the trailing declared-length bytes of the AES-CBC decryption of its body; an item's own keys are likewise used only if their MAC verifies under the master MAC key. "
 "Every other blob (truncated, altered anywhere, wrong key, impossible declared length) gives an error and no plaintext, and never crashes the program.",
 ["inputs"], "every byte string offered as a blob and every pair of keys",
 "The tests decrypt a handful of intact blobs of one vault; none is damaged, truncated or keyed wrongly.",
 [core+"service/keyservice.go", core+"service/itemservice.go"],
 [("CheckHmac, DecodeOpdata, DecodeData, ItemKeys", core+"service/keyservice.go"), ("DecodeOverview, DecodeDetails", core+"service/itemservice.go")])
prop("C03", "A locked vault exposes nothing",
 "After any sequence of unlock, failed unlock, lock and query operations, the session reports itself unlocked exactly when an unlock has succeeded and no lock happened since. "
 "While it is locked every count is zero, every list is empty, every lookup finds nothing and no key is held; a successful unlock of a locked session makes available exactly the items of that vault.",
 ["histories", "inputs"], "every history of session operations with any arguments",
 "The tests check one unlock and one lock on one vault; they do not cover histories, or that locking empties every query.",
 [core+"facade/vaultfacade.go", core+"service/itemservice.go", "1pass-parse/repo/file/itemrepo.go", "1pass-term/control/gocui/guicontrol.go"],
 [("Lock, Unlock, IsUnlocked", core+"facade/vaultfacade.go"), ("ClearMemory, DecodeItems", core+"service/itemservice.go"), ("RemoveItems, StoreItems", "1pass-parse/repo/file/itemrepo.go")],
 [("keys", "session keys, absent while locked", core+"facade/vaultfacade.go"), ("items", "decoded items, absent while locked", "1pass-parse/repo/file/itemrepo.go")])
prop("C04", "Listing returns exactly the matching items, sorted",
 "Listing with any combination of category filter, title text and trashed flag returns each decoded item that has that trashed flag, that category (if one is given) and a title containing the text case-insensitively (if one is given) exactly once, with its own uid, title, category and trashed flag, and returns nothing else. "
 "The result is ordered by category code and, within a category, by title.",
 ["inputs"], "every set of decoded items and every combination of filters",
 "The tests list one 29-item vault with four filter combinations and look at the first and last rows.",
 ["1pass-parse/repo/file/itemrepo.go", core+"service/itemservice.go", core+"facade/vaultfacade.go", "1pass-term/control/gocui/guicontrol.go"],
 [("FindByCategoryAndTitleAndTrashed", "1pass-parse/repo/file/itemrepo.go"), ("GetSimpleItems", core+"service/itemservice.go"), ("GetItems", core+"facade/vaultfacade.go")],
 [("items", "decoded items of the unlocked vault", "1pass-parse/repo/file/itemrepo.go")])
prop("C05", "Counts and uid lookups agree with the stored items",
 "Counting with a category (or none) and a trashed flag gives exactly the number of decoded items with that flag and category. "
 "Looking an item up by uid and trashed flag returns the first decoded item with exactly that uid and flag, and nothing if there is none.",
 ["inputs"], "every set of decoded items, every category, uid and flag",
 "The tests count and look up a few entries of one vault.",
 ["1pass-parse/repo/file/itemrepo.go", core+"service/itemservice.go", core+"facade/vaultfacade.go", "1pass-term/control/gocui/guicontrol.go"],
 [("CountByCategoryAndTrashed, FindFirstByUidAndTrashed", "1pass-parse/repo/file/itemrepo.go"), ("CountItems, GetItem", core+"service/itemservice.go")])
prop("C06", "Every stored item is decoded faithfully and none is invented",
 "Unlocking turns every stored item of a known category into exactly one item carrying its uid, category, trashed flag and creation and update times, the title and URL of its decrypted overview, and the notes, every named non-empty plain field and every section field with a value of its decrypted details, in the stored order. "
 "Items of unknown categories are left out, and a part that is absent or does not decrypt shows up as empty rather than as anything else.",
 ["inputs"], "every list of stored items and every decrypted overview and details document in OPVault shape",
 "The tests count the decoded items of one vault and read one title; no test checks fields, sections or notes of a decoded item.",
 [core+"service/itemservice.go", core+"domain/entity.go"],
 [("DecodeItems, DecodeOverview, DecodeDetails, ParseItemField, ParseItemSection", core+"service/itemservice.go"), ("NewItem, NewItemField, NewItemSection", core+"domain/entity.go")])
prop("C07", "Overview never reveals a secret value",
 "Whatever an item contains, the item overview shown on the command line does not depend on any field value or on the text of its notes: two items that differ only in field values and in (non-empty) notes produce the same overview output.",
 ["inputs"], "every pair of items that agree on everything but field values and notes text, every command argument",
 "Nothing tests the rendering code at all; a leak for one particular kind of value would go unseen.",
 ["1pass-term/control/cobra/clicontrol.go", core+"service/itemservice.go"],
 [("GetItemOverview", "1pass-term/control/cobra/clicontrol.go")])
prop("C08", "Details show the whole item",
 "The details of an item on the command line contain its category name, title and trashed flag, its URL if it has one, every section title, one 'name: value' entry for every field of every section, and the full notes if there are any. "
 "The item shown is the one with the requested uid and trashed flag; if there is none, the command says so and shows no item.",
 ["inputs"], "every item (any number of sections and fields, any text) and every requested uid and flag",
 "Nothing tests the rendering code at all.",
 ["1pass-term/control/cobra/clicontrol.go", core+"service/itemservice.go"],
 [("GetItemDetails", "1pass-term/control/cobra/clicontrol.go"), ("GetItem", core+"service/itemservice.go")])
prop("C09", "Field values are rendered without changing their meaning",
 "A stored date (seconds since the epoch, however large) is shown as that calendar day, a stored year-month as year-month, and an address as its parts in a fixed alphabetical order with each part on one line; every other value is shown verbatim. "
 "A field without a value, or a plain field without a name, is not shown.",
 ["inputs"], "every field of every decrypted item",
 "The tests parse three literal values passed as strings; stored dates are JSON numbers, which no test covers.",
 [core+"domain/datatype.go", core+"service/itemservice.go"],
 [("ParseItemField, ParseItemSection", core+"service/itemservice.go"), ("ParseValue, parseAddress, parseDate, parseMonthYear, FromName", core+"domain/datatype.go")])
prop("C10", "Every entry of every band file is loaded exactly once",
 "Loading a vault reads all of its band files and yields one stored item per uid present in them, with that entry's category, key, overview and details blobs, MAC, times and trashed flag (false if not recorded), and nothing else; a vault without band files yields no items. "
 "Loading leaves the vault's files untouched.",
 ["inputs"], "every vault directory: any number of band files with any entries",
 "The tests count the entries of one vault; they do not check the content of any entry or other band layouts.",
 ["1pass-parse/repo/file/itemrepo.go", core+"domain/entity.go"],
 [("LoadItems", "1pass-parse/repo/file/itemrepo.go"), ("NewRawItem", core+"domain/entity.go")])
prop("C11", "Saved configuration is what is read back, with stable defaults",
 "After saving a configuration, reading it back (in the same run or a later one) gives the same vault path, timeout, notification flag and update period, and any other entries of the configuration file are kept. "
 "Settings that were never saved read as: no vault path, timeout 1, notifications on, period 1; saving works from any prior state of the file, including a missing or empty one.",
 ["inputs", "histories"], "every configuration value and every prior content of the configuration file",
 "The tests save one configuration over an existing file and read one value back.",
 ["1pass-parse/repo/file/configrepo.go", core+"service/configservice.go", core+"facade/configfacade.go", core+"domain/entity.go"],
 [("Save, loadConfigFile, GetTimeout, GetUpdatePeriod, GetUpdateNotification, GetDefaultVault, IsAvailable", "1pass-parse/repo/file/configrepo.go"), ("GetConfig, SaveConfig", core+"service/configservice.go")],
 [("config", "settings as last read from the configuration file", "1pass-parse/repo/file/configrepo.go")])
prop("C12", "Interactive configuration accepts only valid answers",
 "Whatever is typed during interactive configuration, the saved timeout is either the previous one or a number from 1 to 30, the saved update period is either the previous one or a number from 0 to 365, and the notification flag changes only on a y or n answer (any case). "
 "The vault path changes only after a y answer to the first question; every answer that is not valid leaves its setting at the previous value, and the result is saved exactly once.",
 ["inputs"], "every sequence of typed answers and every previous configuration",
 "No test drives the configuration dialogue.",
 ["1pass-term/control/cobra/clicontrol.go", core+"domain/logicval.go"],
 [("Configure, FirstRun", "1pass-term/control/cobra/clicontrol.go"), ("FromName, FromValue", core+"domain/logicval.go")])
prop("C13", "Self-update installs only a consented, newer, checksum-verified binary",
 "The running binary is replaced only if the release feed reported a newer version and the user answered yes, and only by a file whose MD5 equals the checksum published with that release, in one atomic step. "
 "If any step fails (feed, cache, either download, extraction, checksum, replacement) the update stops there with that error and the installed binary is unchanged.",
 ["fault_sequences", "inputs", "crash_points"], "every feed content, every downloaded archive and checksum file, a failure at any step, and a crash between any two steps",
 "The tests run without network, so the update path is never executed; no test covers failing steps.",
 [core+"service/updateservice.go", core+"facade/updatefacade.go", "1pass-up/component/github/updater.go", "1pass-term/control/cobra/clicontrol.go"],
 [("Update", core+"service/updateservice.go"), ("ValidateChecksum, ReplaceBinary, DownloadFile, ExtractArchive", "1pass-up/component/github/updater.go"), ("Update (consent)", "1pass-term/control/cobra/clicontrol.go")],
 [("cache directory", "downloaded and extracted files before installation", core+"domain/static.go")])
prop("C14", "Archive extraction writes only inside its target directory",
 "Extracting an update archive creates or overwrites regular files only inside the given target directory, whatever names the archive entries carry (absolute, containing '..', or anything else), and an entry that would land elsewhere makes the extraction fail without writing it. "
 "Every regular-file entry of a well-formed archive is extracted with its own content under its own name.",
 ["inputs"], "every archive and every entry name",
 "The extraction test needs network and is skipped; no test uses a hostile entry name.",
 ["1pass-up/component/github/updater.go"], [("ExtractArchive", "1pass-up/component/github/updater.go")])
prop("C15", "Update checks run when due, and a finished check is recorded",
 "An automatic update check contacts the release feed exactly when notifications are on and no usable time of the last check is recorded or at least the configured number of days has passed since; a forced check always does. "
 "The time of the check is recorded after every completed check and never after a skipped or failed one, and an update is reported only if the feed names a newer release.",
 ["inputs", "histories", "fault_sequences"], "every recorded time (missing, unreadable, garbage, past or future), every clock value and period, and every outcome of the feed request",
 "The tests check two extreme periods against a file written a moment earlier; the feed branch needs network and is skipped.",
 [core+"service/updateservice.go", core+"facade/updatefacade.go", "1pass-up/component/github/updater.go", "1pass-term/control/cobra/clicontrol.go"],
 [("CheckForUpdate", core+"service/updateservice.go"), ("ShouldCheck, CheckTimestamp", "1pass-up/component/github/updater.go"), ("CheckForUpdate", "1pass-term/control/cobra/clicontrol.go")],
 [("lastcheck file", "time of the last completed check", "1pass-up/component/github/updater.go")])
prop("C16", "A release counts as newer exactly when its version is greater",
 "For every dotted version tag in the release feed, the release is reported as newer exactly when that version is greater than the running one, comparing the numeric parts from left to right; a tag that is not a dotted number is never newer. "
 "The reported version, changelog, archive and checksum addresses are those of the first release in the feed.",
 ["inputs"], "every version tag and every feed document",
 "The test needs network and is skipped; even online it sees one tag.",
 ["1pass-up/component/github/updater.go", core+"domain/static.go", core+"domain/entity.go"], [("CheckForUpdate", "1pass-up/component/github/updater.go"), ("NewUpdateInfo", core+"domain/entity.go")])
prop("C17", "No release-feed reply can crash the program",
 "Whatever the update server replies (an empty list, missing or wrongly typed entries, any JSON or none), and whatever a downloaded checksum file contains (including nothing), the update check and the checksum comparison end with a result or an error; they never crash.",
 ["inputs"], "every HTTP reply body and every checksum file content",
 "The tests need network and are skipped; no test feeds a malformed reply.",
 ["1pass-up/component/github/updater.go"], [("CheckForUpdate, ValidateChecksum", "1pass-up/component/github/updater.go")])
prop("C18", "A path is accepted as a vault exactly when it holds a profile",
 "A path is accepted as a vault exactly when it is a directory containing the profile file default/profile.js as a file; otherwise an error naming the problem is returned and nothing is loaded. "
 "Every command that shows vault data validates the vault first and, when validation or unlocking fails, ends with an error exit without showing any item.",
 ["inputs"], "every path and every state of the file system under it, every command",
 "The tests try four fixed directories at service level and no command.",
 [core+"service/vaultservice.go", core+"facade/vaultfacade.go", "1pass-term/control/cobra/clicontrol.go", "1pass-term/control/gocui/guicontrol.go"],
 [("ValidateVault", core+"service/vaultservice.go"), ("GetItems, GetItemOverview, GetItemDetails", "1pass-term/control/cobra/clicontrol.go"), ("ValidateVault", "1pass-term/control/gocui/guicontrol.go")])
prop("C19", "The program writes only its own files",
 "No operation creates, changes, renames or removes any file except: the configuration file and the last-check file in the configuration directory, files under the update cache directory, and the program's own binary during a confirmed update. "
 "In particular validating, unlocking, listing and showing items never changes anything in the vault.",
 ["inputs", "histories", "configurations"], "every operation with any arguments and any file system state",
 "The tests do not look at what else a call wrote.",
 [core+"service/", core+"facade/", "1pass-parse/repo/file/", "1pass-up/component/github/updater.go", "1pass-term/control/"],
 [("Save", "1pass-parse/repo/file/configrepo.go"), ("CheckTimestamp, DownloadFile, ExtractArchive, ReplaceBinary", "1pass-up/component/github/updater.go"), ("Update", core+"service/updateservice.go")])
prop("C20", "Category, data-type and answer names map one-to-one to their values",
 "Every item category code and every name (in any letter case) of a category, data type or yes/no answer is resolved to the one registered value that carries it, and every other code or name is rejected with an error; the eighteen OPVault category codes resolve to the categories of the OPVault design. "
 "No operation (listing categories included) changes these mappings.",
 ["inputs", "histories"], "every string offered as a code or name, after any sequence of operations",
 "The tests try a few names of each registry.",
 [core+"domain/itemcategory.go", core+"domain/datatype.go", core+"domain/logicval.go", "1pass-term/control/cobra/clicontrol.go"],
 [("FromCode, FromName, FromValue, registries", core+"domain/")])
prop("C21", "Opening a GUI menu entry lists exactly the items it counts",
 "In the GUI, the menu shows an 'All' entry, one entry per category that has untrashed items, and a 'Trashed' entry when there are trashed items, each with its count; opening the selected entry lists exactly the items that entry stands for. "
 "This holds for every vault, with or without trashed or untrashed items.",
 ["inputs", "histories"], "every set of decoded items and every selected entry",
 "Nothing tests the GUI.",
 ["1pass-app/gui/1passwidget.go"], [("update, showItems, lock", "1pass-app/gui/1passwidget.go")],
 [("categories, currIdx", "menu entries and selection", "1pass-app/gui/1passwidget.go")])
prop("C22", "The GUI acts on the row it highlights",
 "After any sequence of moving up, moving down, opening, going back, locking and unlocking, the entry the GUI opens or shows is the one on the highlighted row: the row under the cursor (scroll offset plus cursor row) is the selected index, and the selected index always denotes an existing entry or none when the list is empty. "
 "No key press makes the program crash.",
 ["histories", "inputs"], "every sequence of key presses, every list length and window height",
 "Nothing tests the GUI.",
 ["1pass-app/gui/1passwidget.go", "1pass-app/gui/itemswidget.go", "1pass-app/gui/detailswidget.go"],
 [("cursorDown, cursorUp, resetCursor, update", "1pass-app/gui/1passwidget.go"), ("cursorDown, cursorUp, resetCursor, update, toggleDetails", "1pass-app/gui/itemswidget.go")],
 [("currIdx", "selected entry", "1pass-app/gui")])
prop("C23", "Locking in the GUI removes vault data from the screen",
 "From any GUI view, the lock key locks the vault, removes the item list and item details from the screen, empties the menu and asks for the password; no vault data is shown again before a successful unlock. "
 "A wrong password shows the error and returns to the password prompt.",
 ["histories", "inputs"], "every view from which lock is pressed and every vault content",
 "Nothing tests the GUI.",
 ["1pass-app/gui/1passwidget.go", "1pass-app/gui/itemswidget.go", "1pass-app/gui/passprompt.go", "1pass-app/gui/errdialog.go"],
 [("lock, unlock, update, closeError", "1pass-app/gui/1passwidget.go"), ("lock, goBack", "1pass-app/gui/itemswidget.go")])
prop("C24", "The GUI item view shows the item, and its overview no secret",
 "The GUI item view in details mode contains the category, title, trashed flag, URL, every section, every field name with its value, and the notes of the item; in overview mode it does not depend on any field value or on the text of the notes.",
 ["inputs"], "every item and both view modes",
 "Nothing tests the GUI.",
 ["1pass-app/gui/detailswidget.go", "1pass-app/gui/itemswidget.go"], [("detailsWidget.update", "1pass-app/gui/detailswidget.go"), ("showOverview, toggleDetails", "1pass-app/gui/itemswidget.go")])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties", [ (p["id"],len(p["title"])) for p in P if len(p["title"])>80])
