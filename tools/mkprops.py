#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long texts stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mechanism, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mechanism],
            observe_at=list(observe), hook_needed=hook)))
CORE='1pass-core/core/'
p('C01','Only the exact master password and intact key material open a vault',
  'Unlocking a validated vault succeeds with its exact master password and fails with the "invalid password" error for every other password string. With the right password it also fails (or aborts) if any bit of the salt, of the sealed master key or of the sealed overview key in the profile is flipped or cut off. After any failed attempt on a locked vault the vault is still locked and no item, title or count can be read from it, and the right password still works.',
  ['inputs','histories'],'every password string, every profile (salt, iteration count), every corruption of the profile key material, every sequence of attempts',
  'The tests try one vault with the right password and the empty string; no near-miss password, no corrupted profile, no other iteration count or salt is ever tried.',
  [CORE+'facade/vaultfacade.go',CORE+'service/keyservice.go','1pass-parse/repo/file/profilerepo.go','1pass-parse/util/pbkdf2/cryptoutils.go'],
  [('PBKDF2-HMAC-SHA512 derivation',CORE+'service/keyservice.go DerivedKeys'),('HMAC check before decryption',CORE+'service/keyservice.go DecodeOpdata/CheckHmac'),('keys and items are only set after all three key steps succeed',CORE+'facade/vaultfacade.go Unlock')],
  [('keys','non-nil exactly while unlocked',CORE+'facade/vaultfacade.go')],['vault facade: Unlock, IsUnlocked, CountItems, GetItems, GetItem'])
p('C02','Tampered item data is withheld, never shown',
  'If any bit of the sealed overview (title, URL) or of the sealed details (fields, notes) of an item is changed or cut off, the affected part of that item is not shown at all: it reads as absent, or opening the vault aborts. A changed item key leads to the original details or to none, never to altered text. All other items of the vault are still shown unchanged.',
  ['inputs'],'every single-bit change, truncation, extension, block exchange or transplant of an encrypted blob of an item',
  'The tests only decrypt two intact blobs of the sample vault; no tampered blob is ever decoded.',
  [CORE+'service/itemservice.go',CORE+'service/keyservice.go'],
  [('encrypt-then-MAC check',CORE+'service/keyservice.go DecodeOpdata'),('failed decode yields an empty document',CORE+'service/itemservice.go DecodeOverview/DecodeDetails')],
  observe=['vault facade: GetItem, GetItems'])
p('C03','Every stored field of an item is decoded faithfully',
  'For every item of a known category, an unlocked vault presents exactly the stored title, URL, notes, creation and update time, trash flag and category, all login form fields that have both a name and a value, and all sections with all their fields that have a value, in stored order (login form fields first). Values are unchanged, except that dates read as YYYY-MM-DD, month/year values of more than four digits as YYYY-MM, and addresses as their sorted "key: value" lines. Nothing stored is dropped because another part of the item is present, and nothing else is added.',
  ['inputs'],'every item document: all categories, all presence/emptiness combinations of title, URL, notes, form fields, sections and section fields, all field kinds and number magnitudes',
  'The tests look at one form field, one section field and titles of the sample vault; combinations (form fields together with sections), dates and most kinds are never decoded from an item.',
  [CORE+'service/itemservice.go',CORE+'domain/datatype.go',CORE+'domain/itemcategory.go','1pass-parse/repo/file/itemrepo.go'],
  [('item assembly',CORE+'service/itemservice.go DecodeItems'),('field and section parsing',CORE+'service/itemservice.go ParseItemField/ParseItemSection'),('typed values',CORE+'domain/datatype.go ParseValue')],
  observe=['vault facade: GetItem'])
p('C04','Opening a vault yields every item of every band exactly once',
  'After unlocking, the vault shows exactly the items of known categories found in its band files, each exactly once and under its own UID, no matter how the items are spread over the bands, which bands are missing or empty, which other files lie beside them, and where in the file system (whatever characters its path has) the vault directory lies.',
  ['inputs','configurations'],'every distribution of items over band files, every set of present/empty/missing bands and bystander files, every vault path',
  'The tests load one vault at one path; empty bands, other distributions and paths with special characters are never tried.',
  ['1pass-parse/repo/file/itemrepo.go',CORE+'service/itemservice.go'],
  [('band discovery and merge','1pass-parse/repo/file/itemrepo.go LoadItems'),('unknown categories are skipped',CORE+'service/itemservice.go DecodeItems')],
  observe=['vault facade: CountItems, GetItems, GetItem','1pass list'])
p('C05','Listing, filtering, counting and lookup agree with the vault contents',
  'For every category filter, title filter and trash flag, the list contains exactly the items of that trash state whose category matches and whose title contains the filter text regardless of case, ordered by category code and then title, and the count of a category and trash state equals the length of the unfiltered list. Looking up a UID in a trash state returns exactly that item or none. The list command applies the category (by name, any case), name and trash flags accordingly, reports "no results" for an empty result and rejects an unknown category.',
  ['inputs'],'every small vault over a set of colliding categories, titles and trash flags, and every query over it',
  'The tests run about ten queries against one fixed vault; combined filters and ties are hardly sampled.',
  ['1pass-parse/repo/file/itemrepo.go',CORE+'service/itemservice.go',CORE+'facade/vaultfacade.go',CORE+'domain/itemcategory.go','1pass-term/control/cobra/clicontrol.go','1pass-app/cli/cobra.go'],
  [('filtering','1pass-parse/repo/file/itemrepo.go FindByCategoryAndTitleAndTrashed, CountByCategoryAndTrashed, FindFirstByUidAndTrashed'),('ordering',CORE+'service/itemservice.go GetSimpleItems')],
  observe=['vault facade queries','1pass list -c -n -t'])
p('C06','Lock and unlock histories never leak or mix vault contents',
  'In every history of opening vaults (validate, then unlock with a right or wrong password), locking and changing a vault on disk, the readable items are: none before the first successful unlock and after every lock; exactly the current items of the vault opened last after a successful unlock; unchanged by a failed attempt. The locked/unlocked indication always agrees, and each vault opens only with its own password whatever was opened before.',
  ['histories'],'every sequence of open/lock/validate operations over two vaults with different passwords, up to a depth',
  'The tests perform at most unlock-then-lock on one vault; re-unlocking, a second vault in the same process and failures in between are never sequenced.',
  [CORE+'facade/vaultfacade.go',CORE+'service/vaultservice.go','1pass-parse/repo/file/itemrepo.go','1pass-parse/repo/file/profilerepo.go'],
  [('lock clears keys and decoded items',CORE+'facade/vaultfacade.go Lock'),('profile loading','1pass-parse/repo/file/profilerepo.go LoadProfile'),('item memory','1pass-parse/repo/file/itemrepo.go StoreItems/RemoveItems')],
  [('items','decoded items held in memory','1pass-parse/repo/file/itemrepo.go'),('profileJson','profile of the validated vault','1pass-parse/repo/file/profilerepo.go')],['vault facade'])
p('C07','The vault is read-only and no decrypted data reaches the disk',
  'No command and no interactive session creates, modifies, renames or deletes any file in the vault directory, whatever its outcome (right or wrong password, unknown item, locking, quitting). The only files the application writes are its configuration and last-check files in the user\'s configuration directory and, during an update, its cache directory and its own binary. No written file ever contains the master password or decrypted vault data.',
  ['histories','configurations'],'every command, outcome and key sequence of the explored sessions',
  'No test observes which files are written.',
  ['1pass-term/control/cobra/clicontrol.go','1pass-app/gui/1passwidget.go','1pass-parse/repo/file/itemrepo.go','1pass-parse/repo/file/profilerepo.go','1pass-parse/repo/file/configrepo.go','1pass-up/component/github/updater.go',CORE+'service/updateservice.go'],
  [('vault files are only opened for reading','1pass-parse/repo/file/itemrepo.go, profilerepo.go'),('writers limited to configuration, timestamp and update','1pass-parse/repo/file/configrepo.go, 1pass-up/component/github/updater.go')],
  observe=['file-system calls of the process'],hook='none in /repo: the Go os package is overlaid at build time')
p('C08','The overview command conceals every value, the details command shows them all',
  'For every item, the overview command prints category, title, times, trash flag, URL, section titles and field names but none of the field values and none of the notes text (items that differ only in values and notes have the same overview); the details command prints the same with every value and the notes in full. With a wrong password, or for a UID that does not exist in the chosen trash state, neither prints anything of any item. The typed master password is never echoed on the terminal.',
  ['inputs'],'every item shape (sections, fields, notes present, empty or absent, all kinds), every command, right and wrong passwords, trash flag',
  'The terminal module has no tests at all.',
  ['1pass-term/control/cobra/clicontrol.go','1pass-app/cli/cobra.go'],
  [('masking in the control layer','1pass-term/control/cobra/clicontrol.go GetItemOverview'),('no-echo password read','1pass-term/control/cobra/clicontrol.go')],
  observe=['terminal output of 1pass overview / details'])
p('C09','Saved configuration is read back unchanged, with documented defaults',
  'Any configuration that can be set (any vault path text, notification on/off, timeout 1-30, period 0-365) reads back identically, both in the same process and after a restart, in every history of saves; unrelated keys in the file are kept. Settings missing from the file read as their documented defaults (no vault path, notifications on, timeout 1, period 1), and an absent or empty file counts as "not configured" and can still be configured.',
  ['inputs','histories'],'every combination of settings, every vault path text over a YAML-hostile alphabet, every subset of present keys, every short sequence of saves and reloads',
  'The tests save two configurations with one path; special characters, missing keys, empty files and restarts are not tried.',
  ['1pass-parse/repo/file/configrepo.go',CORE+'service/configservice.go',CORE+'facade/configfacade.go',CORE+'domain/entity.go'],
  [('YAML load/save','1pass-parse/repo/file/configrepo.go'),('defaults','1pass-parse/repo/file/configrepo.go getters')],
  observe=['config facade: GetConfig, SaveConfig, IsConfigAvailable'])
p('C10','Saving the configuration is all-or-nothing under crashes and full disks',
  'If the process dies, or the file system refuses or cuts short an operation, at any point while the configuration is being saved, the next start sees either the complete previous configuration or the complete new one, never a truncated or mixed one and never a file it cannot start with. Success is reported only if the new configuration is in place.',
  ['crash_points','fault_sequences'],'every file-system operation of a save: killed before it, killed half-way through it, failing, failing after a partial write; from every prior state of the file',
  'No test interrupts a save.',
  ['1pass-parse/repo/file/configrepo.go'],
  [('write path of a save','1pass-parse/repo/file/configrepo.go Save')],
  observe=['configuration file after the fault, read by a new process'],hook='none in /repo: the Go os package is overlaid at build time')
p('C11','The configuration dialogue applies each answer to its own setting',
  'In the interactive configuration every line answers exactly one question: a valid answer (y/n in any case, timeout 1-30, period 0-365, vault path when asked for, including paths with spaces) sets exactly that setting, and an empty or invalid answer leaves it as it was (an empty vault path, when asked for, clears the default). The result is saved, and is what the next start uses; a command that needs configuration asks for it when none exists and not otherwise.',
  ['inputs','configurations'],'every combination of valid, boundary, empty and invalid answers, from several prior configurations',
  'The terminal module has no tests at all.',
  ['1pass-term/control/cobra/clicontrol.go',CORE+'domain/logicval.go','1pass-parse/repo/file/configrepo.go'],
  [('dialogue','1pass-term/control/cobra/clicontrol.go Configure, FirstRun'),('yes/no parsing',CORE+'domain/logicval.go')],
  observe=['1pass configure with scripted input; configuration file'])
p('C12','An update is offered exactly when the latest release is newer',
  'The application reports a new version if and only if the dotted numeric version of the most recent release is greater than the running version, comparing number by number; it reports that release\'s version, changelog, archive and checksum locations whatever the order of the release assets. A release that is equal, older or not a dotted number is never offered or installed.',
  ['inputs'],'every dotted version with up to three or four small or boundary components, every order and subset of release assets, several releases per answer',
  'The tests need the network and then only ask whether the currently published release is newer.',
  ['1pass-up/component/github/updater.go',CORE+'service/updateservice.go',CORE+'domain/static.go'],
  [('version comparison and asset selection','1pass-up/component/github/updater.go CheckForUpdate'),('offer decision',CORE+'service/updateservice.go CheckForUpdate/Update')],
  observe=['update facade: CheckForUpdate against a controlled release server'],hook='none in /repo: the Go net package is overlaid at build time')
p('C13','Update checks happen once per configured period',
  'An automatic check contacts the release server if and only if notifications are on and no readable time stamp of a completed check lies less than the configured number of days away; period 0 always checks, and the update command always checks. A completed check (update found or not) renews the time stamp, a failed check leaves it alone, so the next automatic check is tried again. With notifications off, no command-line command other than update contacts the network.',
  ['histories','fault_sequences','configurations'],'every sequence of successful and failing checks, forced checks and elapsed days, for every period class and every state of the time-stamp file',
  'The tests call the schedule decision twice on a fresh file; histories, failures and damaged stamps are not tried.',
  ['1pass-up/component/github/updater.go',CORE+'service/updateservice.go',CORE+'facade/updatefacade.go','1pass-term/control/cobra/clicontrol.go'],
  [('schedule decision','1pass-up/component/github/updater.go ShouldCheck'),('time stamp after a completed check',CORE+'service/updateservice.go CheckForUpdate'),('notification switch','1pass-term/control/cobra/clicontrol.go CheckForUpdate')],
  [('lastcheck','time stamp of the last completed check','configuration directory')],['requests seen by a controlled release server'],hook='none in /repo: the Go net package is overlaid at build time')
p('C14','An update installs a verified, runnable binary completely or not at all',
  'The update command replaces the running binary only after the user answered yes, and only with a downloaded file whose MD5 matches the first checksum in the published checksum file; the installed file is complete and executable. Under every download, extraction or file-system failure, and every kill point, the binary in place is either the intact old one or the complete new one, success is reported only when the new one is installed, a failed update ends with an error message and a failure status, and after a success the cache directory is gone. Leftovers of an earlier attempt never influence the result.',
  ['fault_sequences','crash_points','inputs'],'every kill point and failure of every file-system operation of the update, every per-request server fault, every single-byte corruption of archive and checksum, every answer to the confirmation, every state of the cache directory',
  'The update tests do nothing without network access and never reach an installation.',
  [CORE+'service/updateservice.go','1pass-up/component/github/updater.go','1pass-term/control/cobra/clicontrol.go'],
  [('stage order with checksum before replacement',CORE+'service/updateservice.go Update'),('checksum','1pass-up/component/github/updater.go ValidateChecksum'),('atomic rename over the binary','1pass-up/component/github/updater.go ReplaceBinary'),('confirmation','1pass-term/control/cobra/clicontrol.go Update')],
  observe=['binary file, its mode, the cache directory and the exit status of 1pass update'],hook='none in /repo: the Go os and net packages are overlaid at build time')
p('C15','Unpacking a release never writes outside the update cache',
  'Whatever entry names and types a release archive contains (parent directory steps, absolute names, links, repeated names), unpacking it creates and changes files only below the destination directory; files with plain names are unpacked with exactly their contents.',
  ['inputs'],'every archive of up to two or three entries over an alphabet of path components and entry types',
  'No test unpacks an archive without network access, and none a hostile one.',
  ['1pass-up/component/github/updater.go'],
  [('target path computation','1pass-up/component/github/updater.go ExtractArchive')],
  observe=['file-system tree around the destination'],hook='none in /repo: the Go os package is overlaid at build time')
p('C16','A failing update check never keeps the user from the vault',
  'Whatever the release server does during an automatic update check (unreachable, error status, malformed, incomplete or wrongly typed answer, no releases, stalled connection), every command still does its work with the same output and exit status as without the check, after at most the configured timeout, and the interactive session stays usable.',
  ['inputs','fault_sequences'],'every JSON type in every position of the release document, every transport fault, on command-line commands and the interactive session',
  'The tests only ever see the real server or no network.',
  ['1pass-up/component/github/updater.go','1pass-term/control/cobra/clicontrol.go','1pass-app/gui/versionwidget.go'],
  [('errors of the check are ignored by commands','1pass-term/control/cobra/clicontrol.go CheckForUpdate'),('answer parsing','1pass-up/component/github/updater.go CheckForUpdate')],
  observe=['output and exit status of the commands'],hook='none in /repo: the Go net package is overlaid at build time')
p('C17','In the interactive view the highlighted entry is the one that opens',
  'In a window of constant size, after unlocking the menu lists All (if there are untrashed items), each category that has untrashed items (with its count) and Trashed if there is any trash; in every reachable state the entry that opens, and the item whose overview or details is shown, is the highlighted one, and it shows exactly the items of that entry in list order. Moving never leaves the list, and a freshly opened list or details pane starts at its beginning.',
  ['histories','inputs','configurations'],'every key sequence up to a depth, and every reachable widget state, over vaults with every combination of present categories and trash, and terminals smaller and larger than the lists',
  'The interactive part has no tests at all.',
  ['1pass-app/gui/1passwidget.go','1pass-app/gui/itemswidget.go','1pass-app/gui/detailswidget.go','1pass-term/control/gocui/guicontrol.go'],
  [('menu construction and selection','1pass-app/gui/1passwidget.go update/showItems/cursorDown/cursorUp'),('item selection','1pass-app/gui/itemswidget.go'),('scrolling','1pass-app/gui/detailswidget.go')],
  [('currIdx','logical selection','1pass-app/gui/1passwidget.go, itemswidget.go'),('cursor/origin','visible selection','gocui view')],['screen contents after every key'],hook='none in /repo: terminal library replaced by a virtual screen at build time')
p('C18','Locking hides everything; only the right password brings it back',
  'In the interactive session, from every state, the lock key removes every title, name, value and note of the vault from the screen and asks for the password, and nothing of the vault appears again until the right password has been entered, however keys are typed, pasted or batched; a wrong password shows an error and asks again. The password field shows only asterisks, and any password that unlocks on the command line unlocks here.',
  ['histories','schedules','inputs'],'every key sequence up to a depth with right and wrong passwords, every grouping of the typed keys into event batches, passwords with spaces and non-ASCII characters',
  'The interactive part has no tests at all.',
  ['1pass-app/gui/1passwidget.go','1pass-app/gui/itemswidget.go','1pass-app/gui/detailswidget.go','1pass-app/gui/passprompt.go','1pass-app/gui/errdialog.go'],
  [('lock','1pass-app/gui/1passwidget.go lock, itemswidget.go lock'),('unlock','1pass-app/gui/1passwidget.go unlock'),('mask','1pass-app/gui/passprompt.go')],
  observe=['screen contents after every key'],hook='none in /repo: terminal library replaced by a virtual screen at build time')
p('C19','Secret values appear on screen only while the selected item is revealed',
  'In the interactive session, field values and notes are on screen only between the reveal key on an item and the next cover or lock, and then only those of the selected item; in every other reachable state they are covered, while category, title, times, URL, section titles and field names of the selected item are shown, and nothing depends on the values covered. Revealed details show every value and note of the item.',
  ['histories','inputs'],'every key sequence up to a depth and every reachable widget state, over items of every shape',
  'The interactive part has no tests at all.',
  ['1pass-app/gui/detailswidget.go','1pass-app/gui/itemswidget.go'],
  [('overview/details rendering','1pass-app/gui/detailswidget.go update'),('reveal and cover','1pass-app/gui/itemswidget.go toggleDetails, detailswidget.go toggleDetails')],
  observe=['screen contents after every key'],hook='none in /repo: terminal library replaced by a virtual screen at build time')
p('C20','No key sequence crashes or traps the interactive session',
  'For every sequence and grouping of key presses, every vault (empty, only trash, one item, many), and every window size and resize (also to windows too small for the layout, which need not show anything), the interactive session keeps running without crash or error exit and keeps reacting to keys; the quit key ends it normally from every state, and nothing else ends it. When a window that was too small is enlarged again, locking and unlocking leads to the same screen as a fresh start.',
  ['histories','schedules','configurations'],'every key sequence up to a depth over all bound and some unbound keys, every batching, every vault class, resizes at every point',
  'The interactive part has no tests at all.',
  ['1pass-app/gui/gocui.go','1pass-app/gui/1passwidget.go','1pass-app/gui/itemswidget.go','1pass-app/gui/detailswidget.go','1pass-app/gui/errdialog.go','1pass-app/gui/helpwidget.go','1pass-app/gui/versionwidget.go'],
  [('key bindings per view','1pass-app/gui/*.go Keybindings'),('quit','1pass-app/gui/gocui.go quit')],
  observe=['session outcome'],hook='none in /repo: terminal library replaced by a virtual screen at build time')
p('C21','The background update check never disturbs the interactive session',
  'The result of the asynchronous update check may arrive at any moment of the session; in every interleaving the screen apart from the version line is the same as without it, no data race or crash occurs, the session never waits for the check, and once the result has arrived the version line shows it (new version, up to date, or check failed) without a further key press.',
  ['schedules'],'every point of a key sequence at which the check can complete, every outcome of the check, and memory accesses of the two threads (race detector)',
  'The interactive part has no tests, and a data race is invisible to ordinary tests.',
  ['1pass-app/gui/versionwidget.go'],
  [('asynchronous check','1pass-app/gui/versionwidget.go Layout/update')],
  observe=['screen contents, race detector reports'],hook='none in /repo: terminal library replaced by a virtual screen at build time')
p('C22','The vault location is validated before any password is asked for',
  'A vault path is accepted exactly when it is a directory (or a link to one) that contains a profile file in its default directory; for any other path every vault command and the interactive mode report an "invalid vault" error naming the cause and exit with a failure status before asking for a password. An explicit vault path always takes precedence over the configured default, which is used when none is given.',
  ['inputs','configurations'],'every kind of file-system object at each step of the vault path, with and without a configured default, for every vault command and the interactive mode',
  'The tests validate four paths and never the precedence or the commands.',
  [CORE+'service/vaultservice.go','1pass-term/control/cobra/clicontrol.go','1pass-term/control/gocui/guicontrol.go','1pass-app/gui/gocui.go'],
  [('validation',CORE+'service/vaultservice.go ValidateVault'),('precedence','1pass-term/control/cobra/clicontrol.go, 1pass-term/control/gocui/guicontrol.go')],
  observe=['vault facade Validate; output and exit status of the commands'])
p('C23','Simultaneous runs never corrupt the configuration or the binary',
  'When two runs of the application overlap in any way (two configure dialogues, a configure dialogue next to a command that reads the configuration, two updates, each possibly killed at any point), every start at any moment reads one complete configuration (the old one or that of one of the dialogues), and the binary in place is at every moment a complete, executable old or published one; a run that reports success has its effect in place unless the other run replaced it by its own, and a further undisturbed run works.',
  ['schedules','crash_points'],'every interleaving of the file-system operations of two processes up to a preemption bound, with and without a kill point in one of them',
  'The tests run one operation at a time in one process.',
  ['1pass-parse/repo/file/configrepo.go',CORE+'service/updateservice.go','1pass-up/component/github/updater.go'],
  [('complete file, then rename','1pass-parse/repo/file/configrepo.go Save'),('directory of its own for the unpacked release',CORE+'service/updateservice.go Update'),('rename over the binary','1pass-up/component/github/updater.go ReplaceBinary')],
  observe=['settings read by a fresh start and binary file after every operation; output and exit status of both runs'],hook='none in /repo: the Go os package is overlaid at build time')
p('C24','Every command line runs exactly what it names',
  'For every command line: the command, vault, category, name, trash flag and item identifier that take effect are those the words say under the usual option rules (short, long, attached, with equals sign, bundled; any order; a repeated option: the last one; nothing behind "--" is an option), the vault option given before or after the command, the configured default vault when none is given, and one run never takes values of another option or argument. list shows exactly the items these values select, overview and details exactly the one item. A command line that does not follow the rules (unknown command or option, missing or surplus argument or value, unreadable flag value) is refused with a message and a non-zero exit status, without asking for a password, opening a vault or changing a file; asking for help does none of these either.',
  ['inputs'],'every sequence of words up to a length over an alphabet of commands, options in every spelling, values and junk; every order and spelling of all options of a command',
  'No test runs the command line layer.',
  ['1pass-app/cli/cobra.go','1pass-term/control/cobra/clicontrol.go','1pass-app/main.go'],
  [('flag bindings shared by the commands','1pass-app/cli/cobra.go init'),('exit status of a refused command line','1pass-app/cli/cobra.go Run'),('selection by the given values','1pass-term/control/cobra/clicontrol.go GetItems')],
  observe=['output, password prompt, exit status and file-system changes of the run'],hook='none in /repo: the application runs as a process on a pseudo terminal')
p('C25','A run leaves the terminal as it found it',
  'Whatever the terminal attributes were at the start, they are the same when a run has ended: for list, overview and details after a right, wrong or empty password and when the user interrupts (Ctrl-C, SIGINT, SIGTERM) at the password prompt, with or without typed characters, or while the vault is being opened; for the configuration dialogue and all other commands at every point; for the interactive mode when the user quits from any state. Interrupting at the prompt ends the run with a failure and shows nothing of the vault. Quitting the interactive mode leaves the alternate screen, shows the cursor again, resets the keypad and leaves nothing of the vault on the screen.',
  ['inputs','histories','schedules'],'every command x every terminal attribute that may be set differently x every way to end the run; every key sequence of the interactive mode up to a length, then quit',
  'No test has a terminal.',
  ['1pass-term/control/cobra/clicontrol.go','1pass-app/gui/gocui.go'],
  [('terminal state restored on interrupt','1pass-term/control/cobra/clicontrol.go readPassword'),('deferred Close of the interface','1pass-app/gui/gocui.go Run')],
  observe=['attributes of the pseudo terminal before and after the run, bytes written to it, exit status'],hook='none in /repo: the application runs with the real terminal library on a pseudo terminal whose session leader outlives it')
p('C26','The same question always gets the same answer',
  'For the same vault contents, settings, command line and password, every command gives the same output and exit status in every run, and the interactive mode the same screens (also after locking and unlocking again), whatever the order in which the runtime iterates maps, the order and spread in which items and their keys are stored in the band files, and whatever the working directory, environment variables (home and time zone apart), umask, terminal size, clock, settings that do not concern the command, and age, permissions and neighbours of the vault files. Items of equal category and title always come in the same order, and what overview and details show of an item does not depend on the other items of the vault.',
  ['schedules','inputs'],'every map iteration order up to five entries (a choice the Go runtime makes at random), every storage order and spread of the items, every environment of a list, for every command and the interactive mode',
  'A test sees one iteration order and one environment per run; an order that is wrong once in a hundred runs passes.',
  [CORE+'service/itemservice.go','1pass-parse/repo/file/itemrepo.go',CORE+'domain/datatype.go','1pass-app/gui/itemswidget.go','1pass-term/control/cobra/clicontrol.go'],
  [('items are collected from a map','1pass-parse/repo/file/itemrepo.go LoadItems'),('sorted by category, title, then UID',CORE+'service/itemservice.go GetSimpleItems'),('address lines collected from a map and sorted',CORE+'domain/datatype.go ParseValue')],
  observe=['output and exit status of the commands, screens of the interactive mode'],hook='none in /repo: the map implementation of the Go runtime is overlaid at build time so that iteration order is chosen by the checker')
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
with open(out,'w') as f:
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x,ensure_ascii=False)+'\n')
print(len(P))
