P = [
 dict(id="C13", title="The text and JSON reports say exactly what was found",
  statement="Each lockfile read is reported once, in the order given, with its number of packages; the text lists under each package exactly its unignored vulnerabilities and counts them, and the JSON gives every package with its vulnerabilities and ignored ones apart, each with what its advisory says. Both formats agree on findings and exit code. With --json the standard output is one JSON document whose lists are never null when lockfiles are checked, and all text goes to the standard error; errors always do. --list-packages lists each package with ecosystem, name, and version or commit.",
  over=["inputs","configurations"], all="every mix of lockfiles, packages, findings and ignores within the bounds", why="snapshots sample a few reports; text and JSON have to agree on every one",
  files=["internal/reporter/reporter.go","internal/reporter/report.go","pkg/lockfile/types.go","main.go"],
  mech=[("text report","internal/reporter/report.go String"),("routing","internal/reporter/reporter.go PrintTextf/PrintErrorf/PrintJSONResults"),("package lists","pkg/lockfile/types.go String")],
  harness_files=["common","c07","c13","near","long"], outside="more than 3 lockfiles, 2 packages each; colours",
  bounds="1-2 (thorough 3) lockfiles with 0-2 packages and 0-2 advisories with symbolic ids and ignores; every kind of run; packages of symbolic name and version",
  harnesses=[("verifC13Report","lockfiles, packages, advisories and ignores"),("verifC13Routing","every kind of run, text and JSON"),("verifC13List","symbolic names, versions and commits"),("verifC13Advisory","advisories with symbolic ids, aliases, texts and all forms of what they affect, in and out"),("verifC13Keys","the parts of the JSON document"),("verifC13Bare","1-3 packages with and without version"),("verifC13Same","3 packages of the same name and version in 3 ecosystems"),("verifC13Text","names, versions and ids of long symbolic text")]),
 dict(id="C14", title="Exactly the files asked for are read, each as what it is",
  statement="A file given is always read; of a directory exactly the files lying in it that are known lockfiles are read (every file, when its kind is given), sorted by name and not those of its subdirectories. A file is read as its kind: prefix says, else as --parse-as says, else as its exact base name says, and one that is none of these is an error. Every supported lockfile is known by its name alone, and its packages are checked against the advisories of its own ecosystem.",
  over=["inputs","configurations"], all="every mix of paths, prefixes, flags and file names within the bounds", why="tests sample a few paths; precedence holds for every mix",
  files=["main.go","pkg/lockfile/parse.go","pkg/lockfile/ecosystems.go"],
  mech=[("finding files","main.go findAllLockfiles/findLockfiles"),("choosing a parser","pkg/lockfile/parse.go FindParser"),("database of an ecosystem","main.go makeEcosystemDBConfig/collectEcosystems")],
  harness_files=["common","c07","c14","near"], outside="more than 2 paths; Windows paths; unreadable directories",
  bounds="1-2 paths of every kind with prefix and flag; all lockfile kinds; names next to those of lockfiles; up to 4 rows of 5 ecosystems",
  harnesses=[("verifC14Paths","paths, prefixes and flags"),("verifC14Names","every kind of lockfile, by name alone"),("verifC14Dir","directories of 6 (thorough 9) entries, files or directories"),("verifC14Near","names one symbolic letter, case or affix away from a lockfile's"),("verifC14Ecosystems","1-3 (thorough 4) rows of 5 ecosystems, in one or several files"),("verifC14Links","lockfiles and directories that are symbolic links")]),
 dict(id="C23", title="CSV rows are packages with exactly the fields given",
  statement="Every CSV row, whether an argument or a line of a file, gives one package with exactly the ecosystem, commit or version, and name written, whatever characters these hold and whether quoted or not; rows are compared by the rules of the ecosystem they ask for, and checked against the advisories of their ecosystem. A row that is not such a package is an error and no row of its source is reported.",
  over=["inputs"], all="every set of rows within the bounds", why="tests sample a few rows",
  files=["pkg/lockfile/csv.go","main.go"], mech=[("one row","pkg/lockfile/csv.go fromCSVRecord"),("rows and files","pkg/lockfile/csv.go FromCSVRows/FromCSVFile")],
  harness_files=["common","c07","c23","long","near"], outside="more than 3 rows; non-ASCII fields",
  bounds="1-2 (thorough 3) rows of 8 kinds, as arguments or file; fields of symbolic bytes with quotes, commas and line ends; 4 ecosystems with symbolic versions",
  harnesses=[("verifC23Rows","1-2 (thorough 3) rows of 8 kinds"),("verifC23Field","names and versions of symbolic bytes"),("verifC23Eco","ecosystems of symbolic bytes and 17 known ones"),("verifC23Compare","ecosystems asked for, symbolic versions"),("verifC23Text","long symbolic fields")]),
 dict(id="C25", title="The same input always gives the same output",
  statement="Two runs over the same files, flags and databases give the same standard output, standard error and exit code and write the same configs, in whatever order Go goes through its maps: packages, findings, errors and updated configs come in a fixed order.",
  over=["schedules","inputs"], all="every order in which maps are iterated, over every input within the bounds", why="map order is random, so tests see one order per run; most orders show up rarely",
  files=["pkg/lockfile/types.go","pkg/lockfile/parse.go","pkg/database/mem-check.go","main.go"],
  mech=[("package order","pkg/lockfile/parse.go Parse"),("config order","main.go writeUpdatedConfigs")],
  harness_files=["common","lock","c07","c21","c25"], outside="more than 3 entries per map; the arrival order of API answers (C08)",
  bounds="all orders of maps of up to 3 entries; lockfiles of 9 kinds with up to 3 packages that may coincide in name and version; findings over 2 databases; 2 configs",
  harnesses=[("verifC25Many","4 kinds of lockfile with 16 packages"),("verifC25Packages","lockfiles with coinciding packages",120,600),("verifC25Findings","findings over 2 databases"),("verifC25Update","what is written to 2-3 configs"),("verifC25Databases","1-3 (thorough 4) packages of 4 ecosystems")]),
 dict(id="C28", title="Advisories are described truthfully and briefly",
  statement="In the text report an advisory stands with its id, its summary or else its details, and a link to GitHub if it is one of GitHub's. Details of fewer than 80 characters are given in full; longer ones are cut to at most 80, after a whole word where there is one, followed by an ellipsis, and never inside a character.",
  over=["inputs"], all="every summary, details and id within the bounds", why="tests sample a few texts; the cut depends on where spaces and wide characters fall",
  files=["pkg/database/osv.go","internal/reporter/report.go"], mech=[("description","pkg/database/osv.go Describe/Link"),("cut","pkg/database/osv.go truncate")],
  harness_files=["common","c07","c08","c11","c13"], outside="characters wider than two bytes; more than 3 symbolic places in long texts",
  bounds="ids with 5 prefixes, summaries and details of symbolic bytes, texts of 60-100 characters with symbolic spaces and wide characters",
  harnesses=[("verifC28Describe","ids, summaries, details"),("verifC28Length","texts around the limit")]),
 dict(id="C26", title="Each lockfile is checked against exactly the databases asked for",
  statement="The config of a lockfile is the one given with --config, else .osv-detector.yml beside the lockfile, else .osv-detector.yaml beside it, and none with --no-config. The lockfile is checked against the databases of its config (unless --no-config-databases), the API if --use-api, and the databases of its ecosystems unless --use-dbs=false, and no others, whatever other lockfiles use. Each database is of the kind its config says, else a directory if it is a file: address, an archive if it ends in .zip and otherwise an API, and is loaded once; one that is none of these is an error.",
  over=["configurations","inputs"], all="every combination of configs, flags and database entries within the bounds", why="tests sample a few combinations of flags and configs",
  files=["main.go","internal/configer/load.go","pkg/database/config.go"],
  mech=[("finding configs","internal/configer/load.go Find/Load"),("databases per lockfile","main.go adjustExtraDatabases/forConfigs/uniqueDBConfigs"),("kinds of databases","internal/configer/load.go inferDBType, pkg/database/config.go Load")],
  harness_files=["common","c07","c08","c26","long","near"], outside="more than 2 lockfiles or 2 databases per config; OSV_DETECTOR_PREFER_API (C30); archives at symbolic addresses (the cache file's name is a hash)",
  bounds="5 places of configs with all 5 flags; databases with symbolic addresses, 6 types and names; 2 lockfiles with 0-2 databases each out of 2 archives with 2 (thorough 3) working directories",
  harnesses=[("verifC26Which","5 places of configs, all flags"),("verifC26Kind","entries with symbolic addresses and 6 types"),("verifC26Own","2 lockfiles with 0-2 databases each"),("verifC26Shared","2-3 lockfiles of different ecosystems with one config of 0-4 databases"),("verifC26Failed","2 lockfiles with 0-2 databases each, some of which cannot be loaded or asked"),("verifC26Mixed","1-3 ecosystems in one file, all flags, linked files")]),
 dict(id="C27", title="--update-config-ignores writes exactly what was found",
  statement="With --update-config-ignores, the ignore list of each config in use becomes exactly the ids of the advisories found in the lockfiles that use it, ignored ones included, each once and sorted; its databases stay as they are, and running again reports nothing and changes nothing. Without the flag, or when a config is not used, no config is changed, and none is ever created. The exit code is that of the check.",
  over=["inputs","configurations","histories"], all="every set of findings, ignores, configs and lockfiles within the bounds", why="tests sample a few updates of fixed configs",
  files=["main.go","internal/configer/update.go"], mech=[("findings per config","main.go run/writeUpdatedConfigs"),("writing","internal/configer/update.go UpdateWithIgnores")],
  harness_files=["common","c07","c08","c26"], outside="crashes while a config is written; databases that fail while updating; comments in configs",
  bounds="2 (thorough 3) advisories with symbolic ids, 0-1 (thorough 2) symbolic old ignores, 3 places of configs; 3 directories with or without config and lockfile; 1-2 databases with symbolic names",
  harnesses=[("verifC27Update","symbolic ids and old ignores, and a second run"),("verifC27Files","3 directories, shared and separate configs"),("verifC27Keep","databases with all their fields")]),
 dict(id="C29", title="All advisories below a database's working directory are loaded",
  statement="From a directory or archive exactly the .json files anywhere below its working directory (its root by default), however that is spelled, are loaded as advisories. A file there that is no advisory or cannot be read is skipped and never hides another one, and whatever else an advisory says or leaves out does not change whether it is found to affect a package.",
  over=["inputs","fault_sequences"], all="every tree of files and every mix of good and bad ones within the bounds", why="tests sample a few trees",
  files=["pkg/database/dir.go","pkg/database/zip.go"], mech=[("directory","pkg/database/dir.go load"),("archive","pkg/database/zip.go load/loadZipFile")],
  harness_files=["common","c07","c08","c26","c29","near"], outside="more than 2 (thorough 3) files; linked directories inside a database; directories that cannot be read; working directories that do not exist (C07)",
  bounds="1-2 (thorough 3) files with symbolic names and directories, 3 working directories in 3 spellings; 2 (thorough 3) files good or bad in 7 ways; advisories of 6x5x4 shapes with symbolic versions",
  harnesses=[("verifC29Tree","symbolic file and directory names"),("verifC29Bad","files good or bad in 7 ways"),("verifC29Extra","other contents of advisories"),("verifC29Links","advisories and databases that are symbolic links")]),
 dict(id="C30", title="Defaults and listing commands do what they say and nothing more",
  statement="If the environment variable OSV_DETECTOR_PREFER_API is exactly true the API is used and the databases of the ecosystems are not, otherwise the databases and not the API; --use-api and --use-dbs, each by itself, overrule that. --list-packages, --list-ecosystems and --version use no config, no database and no network, change no file, and exit with 0 whatever configs lie about; --list-ecosystems names exactly the ecosystems of the supported lockfiles, each once. --parse-as takes exactly csv-file, csv-row and the names of the supported lockfiles; any other value is an error (127) that names all of these.",
  over=["inputs","configurations"], all="every value of the variable, mix of flags and configs, and value of --parse-as within the bounds", why="tests run with one environment and a few mixes of flags",
  files=["main.go","internal/reporter/reporter.go","pkg/lockfile/parse.go","pkg/lockfile/ecosystems.go"],
  mech=[("default from the environment","main.go preferAPI"),("listing","main.go run, internal/reporter/reporter.go PrintKnownEcosystems"),("kinds of lockfiles","pkg/lockfile/parse.go ListParsers/FindParser")],
  harness_files=["common","c07","c08","c11","c14","c26","c30"], outside="environments without a proper encoding; proxies and other variables of Go's own libraries",
  bounds="values of 0-5 symbolic bytes, all mixes of --use-api, --use-dbs and a config; 4 kinds of config in 2 places with 5 flags and packages with symbolic names and versions; values of --parse-as of 1-4 symbolic bytes and all within one symbolic byte of a supported one",
  harnesses=[("verifC30Prefer","values of the variable, flags and a config"),("verifC30List","listing commands among configs and flags"),("verifC30Kinds","values of --parse-as")]),
 dict(id="C31", title="What is said and given about databases is true",
  statement="For each database loaded, in the order configured, the text output says its name and how many advisories it holds, withdrawn ones included, for an archive also the date of the download that is in use (even when it comes from the cache), and for an API the size of batches. As a library, a loaded database counts every advisory and gives each once, withdrawn ones only when asked for them; of a list of vulnerabilities the first of those that are the same (by id or alias) is kept; packages give their ecosystems sorted, each once, and an advisory affects exactly the ecosystems it names.",
  over=["inputs","histories"], all="every set of databases, advisories and history of downloads within the bounds", why="tests see a few fixed databases, and only fresh downloads",
  files=["main.go","pkg/database/zip.go","pkg/database/mem-check.go","pkg/database/vulnerabilities.go","pkg/lockfile/parse.go"],
  mech=[("description","main.go describeDB"),("date of an archive","pkg/database/zip.go load/fetchZip"),("library","pkg/database/mem-check.go Vulnerabilities, pkg/database/vulnerabilities.go Unique, pkg/lockfile/parse.go Ecosystems")],
  harness_files=["common","c07","c08","c11","c14","c26","c30"], outside="more than 2 databases of 3 (thorough 4) advisories; more than 3 (thorough 4) runs; hosts that give no date",
  bounds="0-2 databases of 3 kinds with symbolic names, 0-3 (thorough 4) advisories of 4 kinds and a symbolic date; 3 (thorough 4) runs with newer archives and offline; 1-3 (thorough 4) advisories with symbolic ids; lists of 3 with symbolic ids and 0-1 (thorough 2) aliases; 0-3 (thorough 4) packages with symbolic ecosystems",
  harnesses=[("verifC31Loaded","databases and advisories of all kinds"),("verifC31Date","histories of runs, newer archives, offline"),("verifC31Memory","advisories with symbolic ids"),("verifC31Unique","lists with symbolic ids and aliases"),("verifC31Ecosystems","symbolic ecosystems")]),
]
