P = [
 dict(id="C18", title="requirements.txt yields every requirement at its lowest version",
  statement="From a requirements.txt every requirement is found once per file under its normal (PEP 503) name and at the lowest version its specifiers allow (or as of unknown version when none sets one), whatever its spacing, extras, markers, hashes, comments, line continuations and options. Files it includes contribute their requirements too, wherever they are, and a missing or self-including file does no harm beyond an error.",
  over=["inputs"], all="every line, file and include structure of the given shape within the bounds", why="fixtures sample a few spellings of a requirement",
  files=["pkg/lockfile/parse-requirements-txt.go"],
  mech=[("one requirement","pkg/lockfile/parse-requirements-txt.go parseLine"),("names","pkg/lockfile/parse-requirements-txt.go normalizedRequirementName"),("includes","pkg/lockfile/parse-requirements-txt.go parseRequirementsTxt")],
  harness_files=["common","lock","c18","c01","many","near","long"], outside="constraints files; more than 3 lines",
  bounds="names of 1-4 bytes with symbolic bytes, 13 forms of specifier (direct references among them), symbolic versions, 5+ tails (extras, markers, hashes, comments, continuations), files of up to 3 lines, includes up to 2 deep and cyclic",
  harnesses=[("verifC18Line","one requirement in all its spellings"),("verifC18File","up to 3 lines, comments, continuations, LF and CRLF"),("verifC18Include","includes in the same and other directories, missing, cyclic"),("verifC18Long","lines of 70000 characters"),("verifC18Words","16 names that look like something else, 8 options"),("verifC18Text","long symbolic names and versions")]),
 dict(id="C20", title="Gemfile, mix and Gradle lockfiles yield exactly what they lock",
  statement="From a Gemfile.lock, mix.lock or gradle.lockfile exactly the packages it locks are found, each with its version and, when it has one, its commit. Gems' own dependencies, and what stands in sections other than GEM, GIT, PATH and PLUGIN SOURCE, in comments or on the `empty` line of a Gradle file are not packages. LF and CRLF line ends give the same packages.",
  over=["inputs"], all="every lockfile of the given shape within the bounds", why="fixtures sample a few files",
  files=["pkg/lockfile/parse-gemfile-lock.go","pkg/lockfile/parse-mix-lock.go","pkg/lockfile/parse-gradle-lock.go"],
  mech=[("sections","pkg/lockfile/parse-gemfile-lock.go parse"),("lines","pkg/lockfile/parse-mix-lock.go"),("lines","pkg/lockfile/parse-gradle-lock.go")],
  harness_files=["common","lock","c20","c01","many","long","near"], outside="more than 3 packages; gems locked for several platforms",
  bounds="up to 2 (thorough 3) sections of 4 kinds with 1-2 gems; up to 3 mix or Gradle entries of 3-5 kinds; symbolic names, versions and commits",
  harnesses=[("verifC20Gemfile","up to 2 (thorough 3) sections"),("verifC20Mix","up to 3 entries of 3 kinds"),("verifC20Gradle","up to 3 entries of 5 kinds"),("verifC20Long","lines of 70000 characters"),("verifC20Text","the same for every format")]),
 dict(id="C21", title="go.mod yields the modules that are really used",
  statement="From a go.mod every required module is found, direct or not and in a block or not, with its version; where a replace directive applies to it, the replacement is found in its stead (one for the exact version before one for any version, and never the replacement of a replacement), and excluded or retracted versions add nothing.",
  over=["inputs"], all="every set of requirements and replacements within the bounds", why="fixtures sample a few replacements; precedence must hold for each combination",
  files=["pkg/lockfile/parse-go-lock.go"], mech=[("requirements and replacements","pkg/lockfile/parse-go-lock.go ParseGoLock")],
  harness_files=["common","lock","c21","near","long"], outside="more than 2 (thorough 3) replacements; the go and toolchain lines",
  bounds="up to 3 requirements, 2 (thorough 3) replacements of 2 modules in every combination, symbolic version digits",
  harnesses=[("verifC21Require","up to 3 requirements, 4 forms of version"),("verifC21Replace","up to 2 (thorough 3) replacements"),("verifC21Near","5 modules whose paths begin or end alike"),("verifC21Text","long symbolic module paths and versions")]),
 dict(id="C22", title="pom.xml dependencies are found at the version they ask for",
  statement="From a pom.xml every dependency, managed ones included, is found once under group and artifact, at the version written, with every property in it resolved and a range taken at its lowest version; one that has no version takes the managed one, and one whose version cannot be known is of version 0.",
  over=["inputs"], all="every dependency list and version form within the bounds", why="fixtures sample a few properties",
  files=["pkg/lockfile/parse-maven-lock.go"], mech=[("versions and properties","pkg/lockfile/parse-maven-lock.go ResolveVersion"),("managed dependencies","pkg/lockfile/parse-maven-lock.go ParseMavenLock")],
  harness_files=["common","lock","c21","long","near"], outside="parents, profiles and properties that use properties; whitespace inside elements",
  bounds="20 forms of version in 3 places with symbolic digits; up to 3 dependencies and 2 managed ones",
  harnesses=[("verifC22Version","20 forms of version in 3 places"),("verifC22Pom","dependencies and managed ones together"),("verifC22Text","long symbolic names and versions")]),
 dict(id="C24", title="No input crashes the detector or spoils the rest of the run",
  statement="Whatever a lockfile, row, version or advisory event holds, a run ends with a report or with an error that names the file, never a crash; the other files of the run are reported as usual, with --json as one document. A package whose version is unknown or cannot be compared is reported, not taken to be safe.",
  over=["inputs"], all="every document with one unexpected part, and every text of a few bytes where names and versions are taken apart, within the bounds", why="tests sample a few broken files per format",
  files=["main.go","pkg/lockfile/parse.go","pkg/database/osv.go"],
  mech=[("parsers","pkg/lockfile/parse-*.go"),("version comparison","pkg/database/osv.go containsVersion"),("errors per lockfile","main.go run")],
  harness_files=["common","c07","c24"], outside="documents with several unexpected parts; non-ASCII text; very deep nesting",
  bounds="14 formats with 5-10 unexpected values in each of 2-9 places; texts of up to 3-4 (thorough 5) symbolic bytes in 14 places; 9 ecosystems with 8 versions and 5 events",
  harnesses=[("verifC24Shape","one unexpected value anywhere"),("verifC24Text","symbolic text in 14 places"),("verifC24Row","symbolic rows"),("verifC24Compare","versions and events that cannot be compared")]),
]
