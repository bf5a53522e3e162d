P = [
 dict(id="C08", title="API answers are attached to the packages they are for",
  statement="When an API database is used, every package with something to ask about is asked about exactly once, in requests of at most the configured batch size, and each package is reported with exactly the advisories the API answered for it, in that order and each with its own details, whatever the number of packages, the batch size and the order in which responses arrive, and without data races.",
  over=["inputs","configurations","schedules"], all="every number of packages, batch size, distribution of answers and response order within the bounds",
  why="tests use a fixed set of packages and responses; alignment holds for every batch boundary and interleaving",
  files=["pkg/database/api-check.go","pkg/database/api-fetch-all.go","main.go"],
  mech=[("batching and alignment","pkg/database/api-check.go Check/checkBatch"),("concurrent fetch of details","pkg/database/api-fetch-all.go FetchAll")],
  harness_files=["common","c08","long","near"], assume=["the API is a stand-in that answers in process; delays are virtual time"], outside="more than 5 packages; pre-emption inside a single memory access beyond the schedule bound",
  bounds="1-4 (thorough 5) packages, batch sizes 1-4 (5), 0-2 answers each, all response orders of 3 requests, schedules with up to 2 (thorough 3) pre-emptions",
  harnesses=[("verifC08Align","1-4 packages, batch sizes 1-4, 0-2 answers each"),("verifC08Order","response orders of 3 requests and fetches"),("verifC08Size","batch sizes -2 to 2"),("verifC08Many","120 packages in 18 or 120 requests, 230 advisories"),("verifC08Race","interleavings, data races"),("verifC08Details","advisories that name each other")]),
 dict(id="C09", title="A failing API is reported and never hides a finding",
  statement="If a query to an API database fails (no connection, a status other than success, an unreadable or malformed body, or answers that do not match the questions) the run does not succeed and says so on standard error, answers are never attached to another package, and packages of other requests keep theirs. If only an advisory's details cannot be had, the advisory is still reported by its id and still counts.",
  over=["inputs","fault_sequences"], all="every placement of ten kinds of failure on requests within the bounds",
  why="tests inject one failure at a time", files=["pkg/database/api-check.go","pkg/database/api-fetch.go","pkg/database/api-fetch-all.go","main.go"],
  mech=[("query errors","pkg/database/api-check.go checkBatch"),("details errors","pkg/database/api-fetch.go Fetch"),("exit code","main.go run")],
  harness_files=["common","c08"], outside="more than 3 packages; partial bodies cut at every byte",
  bounds="1-3 packages in batches of 1-2, 10 kinds of failing answer per request, 8 per advisory, with and without ignores",
  harnesses=[("verifC09Batch","1-3 packages, batches of 1-2, 12 kinds of answer"),("verifC09Fetch","1-2 (thorough 3) packages, 10 kinds of advisory answer")]),
 dict(id="C10", title="The API is asked about exactly the package found",
  statement="The question put to an API names exactly the package's name, its ecosystem and its version, however they are spelt; a package with a commit and no version is asked about by commit alone, and a package with neither is not asked about by name. Requests go only to the query and advisory endpoints below the configured address.",
  over=["inputs","configurations"], all="every name, version, ecosystem and commit within the bounds",
  why="tests use a few plain names; encoding must be faithful for any text", files=["pkg/database/api.go","pkg/database/api-check.go"],
  mech=[("query payload","pkg/database/api-check.go buildAPIPayload"),("endpoint","pkg/database/api.go bulkEndpoint")],
  harness_files=["common","c08","near"], outside="names over 20 symbolic bytes; non-ASCII text",
  bounds="names, versions and commits of up to 2 symbolic bytes, including quotes and backslashes, and of 9 and 20 (commits of 40) over letters, digits and punctuation",
  harnesses=[("verifC10Query","symbolic name, version, commit"),("verifC10Extra","configured addresses with and without trailing slash"),("verifC10Exact","names, versions and commits of up to 40 symbolic bytes over a wide alphabet")]),
 dict(id="C11", title="Offline runs use the network for nothing",
  statement="With --offline no network request is made, whatever databases and APIs are asked for. Databases downloaded before give the same findings as before; one that was never downloaded, and any API, is an error.",
  over=["inputs","configurations"], all="every combination of flags, extra databases and cache states within the bounds",
  why="tests cannot reach the network paths", files=["main.go","pkg/database/zip.go","pkg/database/api.go"],
  mech=[("offline zip","pkg/database/zip.go fetchZip"),("offline API","pkg/database/api.go NewAPIDB")],
  harness_files=["common","c07","c08","c11","near"], outside="more than one extra database",
  bounds="cached or not, ecosystem and extra archive databases, API by flag or config, listing or checking, symbolic version",
  harnesses=[("verifC11Offline","all combinations of cache, flags and databases"),("verifC11Hosts","5 kinds of host, archives and APIs, empty downloads")]),
 dict(id="C12", title="The database cache never changes what is reported",
  statement="A run that can reach the server reports what the server's current archive says, whatever is in the cache, and an offline run reports what the last archive received in full said. A download that fails or is cut short is an error, not an empty or old database. Archives of different addresses are kept apart, and a cache that is missing, damaged or cannot be written never changes the results.",
  over=["inputs","histories","fault_sequences","crash_points"], all="every history of up to three (thorough four) runs and server changes, and every cache damage, within the bounds",
  why="tests check single steps; stale or damaged caches come from histories", files=["pkg/database/zip.go"],
  mech=[("conditional download and cache","pkg/database/zip.go fetchZip/cachePath")],
  harness_files=["common","c07","c08","c11"], outside="histories over 3 (thorough 4) runs; concurrent runs sharing a cache",
  bounds="3 (thorough 4) steps of run, offline run, failed or cut download, other address, server update; with and without etags and dates; 9 kinds of cache damage; failing writes",
  harnesses=[("verifC12History","histories of 3 (thorough 4) steps"),("verifC12Fault","11 kinds of cache damage, full disks")]),
 dict(id="C15", title="npm lockfiles yield exactly the packages they lock",
  statement="From an npm package-lock of any format, exactly the packages it locks are found: nested ones, scoped ones, aliases under their real name, dev and optional ones and workspaces included, the project itself not; each with its version, or with the commit when it comes from a repository.",
  over=["inputs"], all="every lockfile of the given shape within the bounds", why="fixtures sample a few trees; nothing may be lost or made up for any",
  files=["pkg/lockfile/parse-npm-lock.go","pkg/lockfile/parse-yarn-lock.go"],
  mech=[("dependency tree","pkg/lockfile/parse-npm-lock.go parseNpmLockDependencies"),("packages by path","pkg/lockfile/parse-npm-lock.go parseNpmLockPackages"),("commits","pkg/lockfile/parse-yarn-lock.go tryExtractCommit")],
  harness_files=["common","lock","c15","near","long"], outside="more than 3 entries per level; several packages with long names",
  bounds="up to 3 entries per level and 3 levels, symbolic names, versions and commits, 5-6 kinds of entry; 12 forms of repository address",
  harnesses=[("verifC15V1","trees of up to 3 levels"),("verifC15V2","up to 3 packages by path"),("verifC15Commit","12 forms of repository address, commits of 1-3 symbolic bytes"),("verifC15Paths","6 places with and without a name of their own"),("verifC15Text","names, versions and commits of long symbolic text in every form")]),
 dict(id="C16", title="pnpm, bun and yarn lockfiles yield exactly what they lock",
  statement="From a pnpm-lock.yaml, bun.lock or yarn.lock of any supported format, exactly the packages it locks are found: scoped ones, aliases under their real name, ones requested several times (once), ones with peers and workspaces included, the project itself not; each with its version and, when it comes from a repository, its commit.",
  over=["inputs"], all="every lockfile of the given shape within the bounds", why="fixtures sample a few files; nothing may be lost or made up for any",
  files=["pkg/lockfile/parse-pnpm-lock.go","pkg/lockfile/parse-bun-lock.go","pkg/lockfile/parse-yarn-lock.go"],
  mech=[("dependency paths","pkg/lockfile/parse-pnpm-lock.go extractPnpmPackageNameAndVersion"),("tuples","pkg/lockfile/parse-bun-lock.go"),("line groups","pkg/lockfile/parse-yarn-lock.go groupPackageLines")],
  harness_files=["common","lock","c15","c16","c01","many","long","near"], outside="more than 3 packages; several packages with long names",
  bounds="up to 3 packages, symbolic names, versions and commits, 4-7 kinds of entry, LF and CRLF for yarn 1",
  harnesses=[("verifC16Pnpm","formats 5 and 6"),("verifC16Pnpm9","format 9"),("verifC16Bun","bun.lock"),("verifC16Yarn1","yarn 1"),("verifC16Yarn2","yarn 2 and later"),("verifC16Long","yarn.lock with lines of 70000 characters"),("verifC16Text","the same for every format")]),
 dict(id="C17", title="Python lockfiles yield exactly the packages they lock",
  statement="From a poetry.lock, pdm.lock, uv.lock, pylock.toml or Pipfile.lock exactly the packages it locks are found, development ones included and the project itself not, each with its version and, when it comes from a repository, its commit. Pipfile entries with no version are left out.",
  over=["inputs"], all="every lockfile of the given shape within the bounds", why="fixtures sample a few files",
  files=["pkg/lockfile/parse-poetry-lock.go","pkg/lockfile/parse-pdm-lock.go","pkg/lockfile/parse-uv-lock.go","pkg/lockfile/parse-pylock.go","pkg/lockfile/parse-pipenv-lock.go"],
  mech=[("parsers","pkg/lockfile/parse-{poetry,pdm,uv,pylock,pipenv}*.go")],
  harness_files=["common","lock","c17","long","near"], outside="more than 3 packages; several packages with names over 2 symbolic bytes",
  bounds="up to 3 packages (4 for Pipfile.lock), symbolic names, versions and commits, 3-6 kinds of source",
  harnesses=[("verifC17Poetry","poetry.lock"),("verifC17Pdm","pdm.lock"),("verifC17Uv","uv.lock"),("verifC17Pylock","pylock.toml"),("verifC17Pipenv","Pipfile.lock"),("verifC17Text","the same for every format")]),
 dict(id="C19", title="Cargo, Composer, NuGet, renv and Pub locks yield what they lock",
  statement="From a Cargo.lock, composer.lock, packages.lock.json, renv.lock or pubspec.lock exactly the packages it locks are found, over all sections, frameworks and sources, each with its version and, where the format records one, its commit. renv packages from repositories other than CRAN are left out, and NuGet lockfiles of an unknown format version are an error.",
  over=["inputs"], all="every lockfile of the given shape within the bounds", why="fixtures sample a few files",
  files=["pkg/lockfile/parse-cargo-lock.go","pkg/lockfile/parse-composer-lock.go","pkg/lockfile/parse-nuget-lock.go","pkg/lockfile/parse-renv-lock.go","pkg/lockfile/parse-pubspec-lock.go"],
  mech=[("parsers","pkg/lockfile/parse-{cargo,composer,nuget,renv,pubspec}-lock.go")],
  harness_files=["common","lock","c19","long","near"], outside="more than 4 packages; several packages with names over 2 symbolic bytes",
  bounds="up to 3-4 packages, symbolic names, versions and commits, all sections and sources",
  harnesses=[("verifC19Cargo","Cargo.lock"),("verifC19Composer","composer.lock"),("verifC19NuGet","packages.lock.json"),("verifC19Renv","renv.lock"),("verifC19Pub","pubspec.lock"),("verifC19Text","the same for every format")]),
]
