package main

import (
	"github.com/g-rath/osv-detector/internal/zzsym"
)

var _ = zzsym.Reg("verifSmoke", verifSmoke)

func verifSmoke() {
	v := zzsym.Str("v", 1, "0123456789")
	o := vOSV{id: "OSV-1", affected: []vAff{{eco: "crates.io", name: "foo", ranges: []vRange{{"SEMVER", []vEvent{{"introduced", "0"}, {"fixed", "1." + v}}}}}}}
	zzsym.PutFile("db/a.json", o.vJSON())
	zzsym.PutFile("Cargo.lock", "[[package]]\nname = \"foo\"\nversion = \"1.5\"\n")
	zzsym.PutFile(".osv-detector.yml", "extra-databases:\n  - url: file:/db\n    name: local\n")
	r := vRun("--use-dbs=false", "Cargo.lock")
	zzsym.Observe(r.stdout)
	zzsym.Observe(r.stderr)
	zzsym.Observe(vItoa(r.code))
}
