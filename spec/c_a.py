P = [
 dict(id="C01", title="A version is reported vulnerable exactly when an advisory covers it",
  statement="A package at a version is reported as affected by an advisory for it if and only if the version is listed by the advisory or falls inside one of its version ranges, whatever the order in which the range's events are written. A range starts at its introduced version (0 meaning the very first one) inclusive, ends before its fixed version and includes its last affected version, and may reopen later. Every affected entry and every range of an advisory counts, ranges given in commits never match a version, and a package with no version is taken to be affected.",
  over=["inputs"], all="every order of events, every position of the version relative to them, every mix of listed versions and range types",
  why="tests sample a few event lists and versions; the boundaries and orders are combinatorial",
  files=["pkg/database/osv.go", "pkg/database/mem-check.go"],
  mech=[("range evaluation", "pkg/database/osv.go containsVersion/affectsVersion"), ("per-entry decision", "pkg/database/osv.go IsAffected")],
  harness_files=["common","lock","c01","many","near"], assume=["version order is exercised through the semver comparison used for npm; versions are 1.0 to 1.19"],
  outside="more than 3 (thorough: 4) events per range; other version syntaxes",
  bounds="1-3 (thorough 4) events per range in any order, versions 1.0-1.19 symbolic, up to 2 affected entries with 2 listed versions and 2 ranges each",
  harnesses=[("verifC01Range","one range of 1-3 (thorough 4) events in any order, versions 1.0-1.19, SEMVER/ECOSYSTEM"),("verifC01Multi","1-2 affected entries, 0-2 listed versions, 0-2 ranges of any type each"),("verifC01Many","one range of 15 or 16 events, forwards, backwards and from any place on, versions 1.0-1.19"),("verifC01List","9 near spellings of a listed version on either side")]),
 dict(id="C02", title="Advisories are matched to packages by ecosystem and name",
  statement="An advisory is reported only against packages with the same name in the same ecosystem; a release suffix on the ecosystem (as in Alpine:v3.18) only has to agree when both sides have one. Names are compared exactly, except that advisories for PyPI match by the normalised name, whatever mix of case, dots, dashes and underscores the advisory is written with.",
  over=["inputs"], all="every pair of ecosystem (with or without suffix) and name within the bounds",
  why="tests use a handful of names; the identity and normalisation rules hold over all spellings",
  files=["pkg/database/osv.go", "pkg/database/mem-check.go"],
  mech=[("name and ecosystem normalisation", "pkg/database/osv.go NormalizedName/areEcosystemsEqual"), ("index by ecosystem and name", "pkg/database/mem-check.go")],
  harness_files=["common","c01","c02","near"], outside="names over 20 bytes, more than one suffix character",
  bounds="names of up to 4-6 symbolic bytes, ecosystems with suffixes of up to 2 symbolic bytes",
  harnesses=[("verifC02Eco","pairs of ecosystems with symbolic suffixes"),("verifC02Name","pairs of symbolic names"),("verifC02PyPI","PyPI names of mixed case and separators"),("verifC02Version","listed versions compared as text"),("verifC02Case","ecosystems and releases in either case, the database and the advisory's own answer"),("verifC02Long","names of up to 20 symbolic bytes")]),
 dict(id="C03", title="Every package gets all of its advisories, and only live ones",
  statement="For every package checked against a local or downloaded database, the advisories reported are exactly those in the database that are not withdrawn and affect that package, each once and attached to that package and no other. Adding other packages or advisories does not change this.",
  over=["inputs"], all="every set of packages and advisories within the bounds",
  why="tests use fixed databases; completeness and alignment hold for every combination",
  files=["pkg/database/mem-check.go", "pkg/database/dir.go", "pkg/database/zip.go", "main.go"],
  mech=[("in-memory index", "pkg/database/mem-check.go addVulnerability/VulnerabilitiesAffectingPackage"), ("per-package results by index", "main.go check/transposePkgResults")],
  harness_files=["common","lock","c01","c03","many","near"], outside="more than 2-3 advisories and 3 packages",
  bounds="1-2 (thorough 3) advisories with 1-2 affected entries each, 1-3 packages, symbolic versions and bounds",
  harnesses=[("verifC03Check","1-2 (thorough 3) advisories, 1-3 packages, symbolic versions"),("verifC03Run","the command, directory and archive databases"),("verifC03Many","30 advisories and 31 packages, one of them odd, and 140 advisories for one package"),("verifC03Shape","1-2 (thorough 3) advisories with up to 3 entries and 4 forms of withdrawal, directory and archive"),("verifC03Same","2 (thorough 3) advisories that may share an id"),("verifC03Ecos","2-3 packages of one name and version in 3 ecosystems"),("verifC03Long","advisories that share texts")]),
 dict(id="C04", title="What is found for a lockfile does not depend on what else is scanned",
  statement="The vulnerabilities reported for a lockfile are the same whether it is scanned alone or together with any other lockfiles in any order. In particular, loading only the advisories relevant to the packages being scanned never drops an advisory that affects one of them.",
  over=["inputs","configurations"], all="every pair of lockfiles and orders within the bounds",
  why="tests compare fixed snapshots of a few combinations",
  files=["main.go", "pkg/database/mem-check.go", "pkg/database/zip.go"],
  mech=[("package-name filter while loading", "pkg/database/zip.go mightAffectPackages"), ("per-lockfile config and databases", "main.go readAllLockfiles/adjustExtraDatabases")],
  harness_files=["common","c01","c03","near"], outside="more than two lockfiles",
  bounds="name lists of up to 3 symbolic names; two lockfiles, in either order, with and without configs",
  harnesses=[("verifC04Filter","advisory names and package name lists with symbolic bytes"),("verifC04Alone","two lockfiles alone and together"),("verifC04Bare","1-3 packages with and without version, or with a commit, in one file or several"),("verifC04Long","long symbolic names of any case")]),
 dict(id="C05", title="Each vulnerability is reported once, however many ids it goes by",
  statement="Advisories that are the same vulnerability (same id, one listing the other as alias, or sharing an alias) are reported once per package, under the id that comes first, earlier databases coming first. An advisory that is no alias of another one reported is never dropped.",
  over=["inputs"], all="every alias relation among up to three advisories spread over one or two databases",
  why="tests cover a few alias patterns", files=["main.go","pkg/database/vulnerabilities.go","pkg/database/osv.go"],
  mech=[("alias test", "pkg/database/osv.go isAliasOf"), ("inclusion test", "pkg/database/vulnerabilities.go Includes"), ("merge over databases", "main.go transposePkgResults")],
  harness_files=["common","c05","near"], outside="more than three advisories, more than two aliases each",
  bounds="2-3 advisories with 0-2 symbolic aliases each, any split over two databases",
  harnesses=[("verifC05Aliases","2-3 advisories with 0-2 symbolic aliases each, any split over two databases"),("verifC05Ignored","2-3 advisories with up to one symbolic alias each and 1-2 symbolic ignores"),("verifC05Near","two advisories with ids and aliases that are nearly the same")]),
 dict(id="C06", title="Only advisories named by an ignore are left out of the verdict",
  statement="An advisory found counts as ignored exactly when its id is given by an ignore flag or by the ignore list of the config that applies to that lockfile, and config ignores are respected only when configs and config ignores are enabled. Ignored advisories are listed apart, do not count towards the exit code, and one lockfile's config never affects another lockfile.",
  over=["inputs","configurations"], all="every combination of flags, config ignores and ids within the bounds",
  why="tests cover a few combinations of flags and configs", files=["main.go","internal/configer/load.go","internal/reporter/report.go"],
  mech=[("ignore split", "main.go transposePkgResults/run"), ("report verdict", "internal/reporter/report.go")],
  harness_files=["common","c05","long","near"], outside="more than 2 ignores per source",
  bounds="0-2 symbolic config ignores, 0-2 symbolic flags, 3 advisories, all config switches",
  harnesses=[("verifC06Ignores","0-2 config ignores and flags with symbolic ids, JSON output"),("verifC06Text","text output"),("verifC06Files","several lockfiles with configs of their own"),("verifC06Count","1-5 advisories of a package, any of them ignored")]),
 dict(id="C07", title="Success is reported only when everything was checked and nothing found",
  statement="The command exits 0 only if every path given was read, every lockfile and config parsed, every database loaded and answered, and no unignored vulnerability was found. Unignored vulnerabilities give 1; a lockfile, config or database that cannot be loaded gives 127 whatever else was found, with the reason on standard error; paths without any lockfile give 128.",
  over=["inputs","configurations","fault_sequences"], all="every mix of good, vulnerable, broken and missing paths and of working and failing databases",
  why="tests check single failures; the combinations decide which code wins", files=["main.go","internal/reporter/reporter.go"],
  mech=[("exit code", "main.go run"), ("error tracking", "internal/reporter/reporter.go HasErrored")],
  harness_files=["common","lock","c07","c01","many","near"], outside="more than 2 (thorough 3) paths; failures while reading an open directory",
  bounds="1-2 (thorough 3) paths of 9 kinds with symbolic versions; 9 kinds of database, 4 kinds of network answer",
  harnesses=[("verifC07Exit","1-2 (thorough 3) paths of 9 kinds, symbolic versions"),("verifC07Early","runs that end early"),("verifC07DB","9 kinds of database, 4 kinds of network answer"),("verifC07Long","5 kinds of lockfile with lines of 70000 characters"),("verifC07Mixed","1-2 lockfiles with ignored and unignored advisories")]),
]
