From 317ad5a28327df8f0044abf3719ab4b0ac2803ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:05 +0000
Subject: [PATCH 01/39] fix: identify targets by value, not by an address that
 can be reused

Controller remembered targets by uintptr address, which does not keep the
target alive: a later target allocated at the same address was taken for one
that had already run. Two targets of different types at one address (a struct
and its first field) were also mistaken for each other.
---
 controller.go | 13 +++++++++----
 register.go   | 19 ++++++++-----------
 runner.go     | 10 +++++-----
 3 files changed, 22 insertions(+), 20 deletions(-)

diff --git a/controller.go b/controller.go
index 23f35f6..65f146b 100644
--- a/controller.go
+++ b/controller.go
@@ -23,12 +23,17 @@ type Controller struct {
 	depth int
 
 	// Records targets that have run or are running.
-	ran map[uintptr]*outcome
+	// Keying on the Target itself (rather than on its address as a uintptr)
+	// keeps each one alive,
+	// so that a later target can't be mistaken for one of these
+	// by being allocated at the same address.
+	// It also distinguishes a target from another one of a different type at the same address.
+	ran map[Target]*outcome
 
 	// Keys are names related to topdir.
 	targetsByName map[string]targetRegistryTuple
 
-	targetsByAddr map[uintptr]targetRegistryTuple
+	targetsByAddr map[Target]targetRegistryTuple
 }
 
 // NewController creates a new [Controller]
@@ -38,9 +43,9 @@ type Controller struct {
 func NewController(topdir string) *Controller {
 	return &Controller{
 		topdir:        topdir,
-		ran:           make(map[uintptr]*outcome),
+		ran:           make(map[Target]*outcome),
 		targetsByName: make(map[string]targetRegistryTuple),
-		targetsByAddr: make(map[uintptr]targetRegistryTuple),
+		targetsByAddr: make(map[Target]targetRegistryTuple),
 	}
 }
 
diff --git a/register.go b/register.go
index 7180e62..5cc2dae 100644
--- a/register.go
+++ b/register.go
@@ -10,8 +10,7 @@ import (
 
 // RegisterTarget places a target in the registry with a given name and doc string.
 func (con *Controller) RegisterTarget(name, doc string, target Target) (Target, error) {
-	addr, err := targetAddr(target)
-	if err != nil {
+	if err := checkTargetIsPointer(target); err != nil {
 		return nil, err
 	}
 
@@ -19,18 +18,17 @@ func (con *Controller) RegisterTarget(name, doc string, target Target) (Target,
 
 	con.mu.Lock()
 	con.targetsByName[name] = tuple
-	con.targetsByAddr[addr] = tuple
+	con.targetsByAddr[target] = tuple
 	con.mu.Unlock()
 
 	return target, nil
 }
 
-func targetAddr(target Target) (uintptr, error) {
-	v := reflect.ValueOf(target)
-	if v.Kind() != reflect.Pointer {
-		return 0, fmt.Errorf("got type %T for target, want a pointer type", target)
+func checkTargetIsPointer(target Target) error {
+	if reflect.ValueOf(target).Kind() != reflect.Pointer {
+		return fmt.Errorf("got type %T for target, want a pointer type", target)
 	}
-	return uintptr(v.UnsafePointer()), nil
+	return nil
 }
 
 type targetRegistryTuple struct {
@@ -63,10 +61,9 @@ func (con *Controller) RegistryTarget(name string) (Target, string) {
 // otherwise it's "unnamed X"
 // where X is the result of calling the target's Desc method.
 func (con *Controller) Describe(target Target) string {
-	addr, err := targetAddr(target)
-	if err == nil { // sic
+	if err := checkTargetIsPointer(target); err == nil { // sic
 		con.mu.Lock()
-		tuple, ok := con.targetsByAddr[addr]
+		tuple, ok := con.targetsByAddr[target]
 		con.mu.Unlock()
 		if ok {
 			return tuple.name
diff --git a/runner.go b/runner.go
index 941228c..c9691d2 100644
--- a/runner.go
+++ b/runner.go
@@ -63,16 +63,16 @@ func (con *Controller) Run(ctx context.Context, targets ...Target) error {
 		wg      sync.WaitGroup
 	)
 	for i, target := range targets {
-		addr, err := targetAddr(target)
-		if err != nil {
+		if err := checkTargetIsPointer(target); err != nil {
 			errs[i] = err
 			continue
 		}
 
-		i, target := i, target // Go loop-var pitfall
+		i, target, key := i, target, target // Go loop-var pitfall
 
 		if d, ok := target.(*deferredResolutionTarget); ok {
 			// Short-circuit here to avoid some confusing extra output in verbose mode.
+			var err error
 			target, err = d.resolve(con)
 			if err != nil {
 				errs[i] = err
@@ -85,10 +85,10 @@ func (con *Controller) Run(ctx context.Context, targets ...Target) error {
 			defer wg.Done()
 
 			con.mu.Lock()
-			o, ok := con.ran[addr]
+			o, ok := con.ran[key]
 			if !ok {
 				o = &outcome{g: newGate(false)}
-				con.ran[addr] = o
+				con.ran[key] = o
 			}
 			con.mu.Unlock()
 
-- 
2.43.0


From c514e966527ca67eae5013dce4f47db32e0b6218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:15 +0000
Subject: [PATCH 02/39] fix: run a target once even when it is referred to by
 name more than once

Each reference by name in YAML is a separate deferredResolutionTarget.
Run recorded the reference, not the target it resolves to, as having run,
so a target reached by two different references ran twice.
---
 runner.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/runner.go b/runner.go
index c9691d2..3bae32e 100644
--- a/runner.go
+++ b/runner.go
@@ -68,7 +68,7 @@ func (con *Controller) Run(ctx context.Context, targets ...Target) error {
 			continue
 		}
 
-		i, target, key := i, target, target // Go loop-var pitfall
+		i, target := i, target // Go loop-var pitfall
 
 		if d, ok := target.(*deferredResolutionTarget); ok {
 			// Short-circuit here to avoid some confusing extra output in verbose mode.
@@ -85,10 +85,10 @@ func (con *Controller) Run(ctx context.Context, targets ...Target) error {
 			defer wg.Done()
 
 			con.mu.Lock()
-			o, ok := con.ran[key]
+			o, ok := con.ran[target]
 			if !ok {
 				o = &outcome{g: newGate(false)}
-				con.ran[key] = o
+				con.ran[target] = o
 			}
 			con.mu.Unlock()
 
-- 
2.43.0


From a63a0068b1e5776773e406d146ca2129a1626a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:27 +0000
Subject: [PATCH 03/39] fix: a Files target is not its own prerequisite

When an input of a Files target was also one of its outputs, or lay under
an output directory, the target waited for itself forever.
---
 files.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/files.go b/files.go
index aa9fc57..fb03dc5 100644
--- a/files.go
+++ b/files.go
@@ -198,7 +198,9 @@ func (ft *files) runPrereqs(ctx context.Context, con *Controller) error {
 	var prereqs []Target
 
 	for _, in := range ft.In {
-		if target := findInFilesRegistry(in); target != nil {
+		// A target is not its own prerequisite,
+		// even when one of its inputs is also one of its outputs.
+		if target := findInFilesRegistry(in); target != nil && target != ft {
 			prereqs = append(prereqs, target)
 		}
 	}
@@ -209,7 +211,7 @@ func (ft *files) runPrereqs(ctx context.Context, con *Controller) error {
 	return con.Run(ctx, prereqs...)
 }
 
-func findInFilesRegistry(name string) Target {
+func findInFilesRegistry(name string) *files {
 	for {
 		if target, ok := filesRegistry.lookup(name); ok {
 			return target
-- 
2.43.0


From b8d2921985fdb3c490edec8ffc93da9736f99f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:38 +0000
Subject: [PATCH 04/39] fix: report stat errors when hashing files instead of
 panicking

---
 files.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/files.go b/files.go
index fb03dc5..6f8a1fa 100644
--- a/files.go
+++ b/files.go
@@ -289,6 +289,9 @@ func fileHashesItemHelper(item string, hashes map[string]string) error {
 		hashes[item] = ""
 		return nil
 	}
+	if err != nil {
+		return errors.Wrapf(err, "statting %s", item)
+	}
 
 	if info.IsDir() {
 		entries, err := os.ReadDir(item)
-- 
2.43.0


From 9608a41a4fed992233ec9a0dfebd9b3a7eb6d6be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:49 +0000
Subject: [PATCH 05/39] fix: include the contents of a Seq in its JSON encoding

The field was unexported, so every Seq had the same encoding, and a Files
target did not notice a change in the commands of its Seq subtarget.
---
 seq.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/seq.go b/seq.go
index ef84027..d9a5029 100644
--- a/seq.go
+++ b/seq.go
@@ -20,18 +20,20 @@ import (
 // The elements in the sequence are targets themselves,
 // or target names.
 func Seq(targets ...Target) Target {
-	return &seq{targets: targets}
+	return &seq{Targets: targets}
 }
 
 type seq struct {
-	targets []Target
+	// The JSON name differs from the one in the "all" type
+	// so that the encodings of a Seq and an All differ too.
+	Targets []Target `json:"Seq"`
 }
 
 var _ Target = &seq{}
 
 // Run implements Target.Run.
 func (s *seq) Run(ctx context.Context, con *Controller) error {
-	for _, t := range s.targets {
+	for _, t := range s.Targets {
 		if err := con.Run(ctx, t); err != nil {
 			return err
 		}
-- 
2.43.0


From 8d850b8876b9d8b81613a39d47c377daf688778a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:26 +0000
Subject: [PATCH 06/39] fix: compute the same hash for a Files subtarget given
 by name before and after it runs

The hash taken before running a subtarget covered an unresolved name, and
the one recorded after running it covered the resolved target. In the next
process the first never matched the second, so the target was never up to date.
---
 controller.go |  3 +++
 files.go      |  4 ++++
 yaml.go       | 20 +++++++++++++++++++-
 3 files changed, 26 insertions(+), 1 deletion(-)

diff --git a/controller.go b/controller.go
index 65f146b..2354ee0 100644
--- a/controller.go
+++ b/controller.go
@@ -34,6 +34,9 @@ type Controller struct {
 	targetsByName map[string]targetRegistryTuple
 
 	targetsByAddr map[Target]targetRegistryTuple
+
+	// Targets referred to by name in YAML.
+	deferred []*deferredResolutionTarget
 }
 
 // NewController creates a new [Controller]
diff --git a/files.go b/files.go
index 6f8a1fa..087b377 100644
--- a/files.go
+++ b/files.go
@@ -165,6 +165,10 @@ func (*files) Desc() string {
 }
 
 func (ft *files) computeHash(con *Controller) ([]byte, error) {
+	// Make sure that a subtarget given by name has the same encoding
+	// whether or not it has already run.
+	con.resolveDeferred()
+
 	inHashes, err := fileHashes(ft.In)
 	if err != nil {
 		return nil, errors.Wrapf(err, "computing input hash(es) for %s", con.Describe(ft))
diff --git a/yaml.go b/yaml.go
index 7a1e82a..951d8b6 100644
--- a/yaml.go
+++ b/yaml.go
@@ -86,7 +86,13 @@ func (con *Controller) YAMLTarget(node *yaml.Node, dir string) (Target, error) {
 	}
 
 	// TODO: try to resolve now?
-	return &deferredResolutionTarget{Name: qname}, nil
+	result := &deferredResolutionTarget{Name: qname}
+
+	con.mu.Lock()
+	con.deferred = append(con.deferred, result)
+	con.mu.Unlock()
+
+	return result, nil
 }
 
 type deferredResolutionTarget struct {
@@ -112,6 +118,18 @@ func (dt *deferredResolutionTarget) resolve(con *Controller) (Target, error) {
 	return dt.Target, nil
 }
 
+// resolveDeferred resolves those deferred targets that can be resolved now.
+// It is an error to try to run any that cannot.
+func (con *Controller) resolveDeferred() {
+	con.mu.Lock()
+	deferred := con.deferred
+	con.mu.Unlock()
+
+	for _, dt := range deferred {
+		_, _ = dt.resolve(con)
+	}
+}
+
 func (dt *deferredResolutionTarget) Run(ctx context.Context, con *Controller) error {
 	target, err := dt.resolve(con)
 	if err != nil {
-- 
2.43.0


From d8941c8a8946546f97f7993c907595e4b836ea84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:33 +0000
Subject: [PATCH 07/39] fix: honor the >> prefix of Stdout and Stderr in a YAML
 Command

---
 command.go | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/command.go b/command.go
index 238cd26..31ff573 100644
--- a/command.go
+++ b/command.go
@@ -470,10 +470,7 @@ func (c commandYAML) toTarget(con *Controller, shell, dir string, args, env []st
 		// do nothing
 
 	default:
-		result.StdoutFile = con.JoinPath(dir, c.Stdout)
-		if forceAppend && !strings.HasPrefix(result.StdoutFile, ">>") {
-			result.StdoutFile = ">>" + result.StdoutFile
-		}
+		result.StdoutFile = yamlOutputFile(con, dir, c.Stdout, forceAppend)
 	}
 
 	switch c.Stderr {
@@ -496,15 +493,25 @@ func (c commandYAML) toTarget(con *Controller, shell, dir string, args, env []st
 		// do nothing
 
 	default:
-		result.StderrFile = con.JoinPath(dir, c.Stderr)
-		if forceAppend && !strings.HasPrefix(result.StderrFile, ">>") {
-			result.StderrFile = ">>" + result.StderrFile
-		}
+		result.StderrFile = yamlOutputFile(con, dir, c.Stderr, forceAppend)
 	}
 
 	return result
 }
 
+// The >> prefix is not part of the filename and must not take part in JoinPath.
+func yamlOutputFile(con *Controller, dir, file string, forceAppend bool) string {
+	if strings.HasPrefix(file, ">>") {
+		forceAppend = true
+		file = strings.TrimLeft(file, "> ")
+	}
+	file = con.JoinPath(dir, file)
+	if forceAppend {
+		file = ">>" + file
+	}
+	return file
+}
+
 func deferredIndent(w io.Writer) func(context.Context, *Controller) io.Writer {
 	return func(_ context.Context, con *Controller) io.Writer {
 		return con.IndentingCopier(w, "    ")
-- 
2.43.0


From 16ca4551b116466a6f732ef74b13951467ee3dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:43 +0000
Subject: [PATCH 08/39] fix: read standard input from the file named in a YAML
 Command

---
 command.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/command.go b/command.go
index 31ff573..1cc3679 100644
--- a/command.go
+++ b/command.go
@@ -446,8 +446,15 @@ func (c commandYAML) toTarget(con *Controller, shell, dir string, args, env []st
 		Env:   env,
 	}
 
-	if c.Stdin == "$stdin" {
+	switch c.Stdin {
+	case "$stdin":
 		result.Stdin = os.Stdin
+
+	case "":
+		// do nothing
+
+	default:
+		result.StdinFile = con.JoinPath(dir, c.Stdin)
 	}
 
 	switch c.Stdout {
-- 
2.43.0


From 009babd22bcd37132d1e9cecfca871aca9c746a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:53 +0000
Subject: [PATCH 09/39] fix: do not panic in ParseArgs when the second argument
 is empty

---
 controller.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/controller.go b/controller.go
index 2354ee0..d6fa288 100644
--- a/controller.go
+++ b/controller.go
@@ -93,7 +93,7 @@ func (con *Controller) ParseArgs(args []string) ([]Target, error) {
 		unknown []string
 	)
 
-	if len(args) > 1 && args[1][0] == '-' {
+	if len(args) > 1 && strings.HasPrefix(args[1], "-") {
 		// Just one target, and remaining args are arguments for that target.
 		if target, _ := con.RegistryTarget(args[0]); target != nil {
 			targets = append(targets, ArgTarget(target, args[1:]...))
-- 
2.43.0


From 2eddac5d42e67bf7957256ff9a309e0aa8539c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:25 +0000
Subject: [PATCH 10/39] fix: resolve references between YAML files that refer
 to each other

A reference to a target defined later in a subdirectory's YAML file that was
still being read caused that file to be read again: forever, if the reference
came before the definition in each file, and otherwise registering a second
copy of some targets.
---
 controller.go |  4 ++++
 yaml.go       | 27 ++++++++++++++++++++++++++-
 2 files changed, 30 insertions(+), 1 deletion(-)

diff --git a/controller.go b/controller.go
index d6fa288..040abeb 100644
--- a/controller.go
+++ b/controller.go
@@ -35,6 +35,9 @@ type Controller struct {
 
 	targetsByAddr map[Target]targetRegistryTuple
 
+	// Directories, relative to topdir, whose YAML is being read.
+	reading map[string]struct{}
+
 	// Targets referred to by name in YAML.
 	deferred []*deferredResolutionTarget
 }
@@ -49,6 +52,7 @@ func NewController(topdir string) *Controller {
 		ran:           make(map[Target]*outcome),
 		targetsByName: make(map[string]targetRegistryTuple),
 		targetsByAddr: make(map[Target]targetRegistryTuple),
+		reading:       make(map[string]struct{}),
 	}
 }
 
diff --git a/yaml.go b/yaml.go
index 951d8b6..f87b257 100644
--- a/yaml.go
+++ b/yaml.go
@@ -72,6 +72,16 @@ func (con *Controller) YAMLTarget(node *yaml.Node, dir string) (Target, error) {
 				return found, nil
 			}
 
+			con.mu.Lock()
+			_, reading := con.reading[tdir]
+			con.mu.Unlock()
+
+			if reading {
+				// The file that defines this target is being read now
+				// but the definition has not been reached yet.
+				return con.deferTarget(qname), nil
+			}
+
 			if err := con.ReadYAMLFile(tdir); err != nil {
 				return nil, errors.Wrapf(err, "resolving target %s", qname)
 			}
@@ -86,13 +96,17 @@ func (con *Controller) YAMLTarget(node *yaml.Node, dir string) (Target, error) {
 	}
 
 	// TODO: try to resolve now?
+	return con.deferTarget(qname), nil
+}
+
+func (con *Controller) deferTarget(qname string) Target {
 	result := &deferredResolutionTarget{Name: qname}
 
 	con.mu.Lock()
 	con.deferred = append(con.deferred, result)
 	con.mu.Unlock()
 
-	return result, nil
+	return result
 }
 
 type deferredResolutionTarget struct {
@@ -192,6 +206,17 @@ func (con *Controller) ReadYAML(r io.Reader, dir string) error {
 		return errors.Wrap(BadYAMLNodeKindError{Got: m.Kind, Want: yaml.MappingNode}, "at document second level")
 	}
 
+	readingDir := filepath.Clean(dir)
+	con.mu.Lock()
+	con.reading[readingDir] = struct{}{}
+	con.mu.Unlock()
+
+	defer func() {
+		con.mu.Lock()
+		delete(con.reading, readingDir)
+		con.mu.Unlock()
+	}()
+
 	if len(m.Content)%2 != 0 {
 		return fmt.Errorf("got %d children for second-level node, want an even number", len(m.Content))
 	}
-- 
2.43.0


From 2d00953cbce1e97273c6184089d7700b16e3d930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:35 +0000
Subject: [PATCH 11/39] fix: pass standard input through to the driver

---
 main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/main.go b/main.go
index 6149965..f43b65e 100644
--- a/main.go
+++ b/main.go
@@ -100,7 +100,7 @@ func (m *Main) Run(ctx context.Context) error {
 
 	cmd := exec.CommandContext(ctx, driver, args...)
 	cmd.Dir = m.Topdir
-	cmd.Stdout, cmd.Stderr = os.Stdout, os.Stderr
+	cmd.Stdin, cmd.Stdout, cmd.Stderr = os.Stdin, os.Stdout, os.Stderr
 	err = cmd.Run()
 	return errors.Wrapf(err, "running %s %s", driver, strings.Join(args, " "))
 }
-- 
2.43.0


From ef43d4cc19f2823a996abde6d4dfc079b42dea9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:44 +0000
Subject: [PATCH 12/39] fix: record the fab version whenever the driver is
 compiled

The first compilation of a driver did not write the version file, so the
second run always compiled the driver again.
---
 main.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/main.go b/main.go
index f43b65e..c47bcb3 100644
--- a/main.go
+++ b/main.go
@@ -281,6 +281,10 @@ func (m *Main) getDriver(ctx context.Context, skipVersionCheck bool) (_ string,
 	if err = os.WriteFile(hashfile, []byte(newhash), 0644); err != nil {
 		return "", errors.Wrapf(err, "writing %s", hashfile)
 	}
+	if buildInfo == nil && !skipVersionCheck {
+		// The version check was skipped above, or found no change.
+		buildInfo, _ = debug.ReadBuildInfo()
+	}
 	if buildInfo != nil {
 		v, err := os.OpenFile(versionfile, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0644)
 		if err != nil {
-- 
2.43.0


From 9f09521302a99f56d25be1b7dec2b1060c149433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:06 +0000
Subject: [PATCH 13/39] fix: make relative fab and top directories absolute
 before running the driver

The driver runs in the top directory, so a relative -fab directory given in
a subdirectory made the driver impossible to find.
---
 main.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/main.go b/main.go
index c47bcb3..0fda8f9 100644
--- a/main.go
+++ b/main.go
@@ -83,7 +83,21 @@ func (m *Main) Run(ctx context.Context) error {
 		return errors.Wrap(err, "ensuring driver is up to date")
 	}
 
-	args := []string{"-fab", m.Fabdir, "-top", m.Topdir}
+	// The driver runs in the top directory,
+	// where relative paths no longer mean what they do here.
+	if driver, err = filepath.Abs(driver); err != nil {
+		return errors.Wrap(err, "making driver path absolute")
+	}
+	fabdir, err := filepath.Abs(m.Fabdir)
+	if err != nil {
+		return errors.Wrap(err, "making fab directory absolute")
+	}
+	topdir, err := filepath.Abs(m.Topdir)
+	if err != nil {
+		return errors.Wrap(err, "making top directory absolute")
+	}
+
+	args := []string{"-fab", fabdir, "-top", topdir}
 	if m.Verbose {
 		args = append(args, "-v")
 	}
@@ -99,7 +113,7 @@ func (m *Main) Run(ctx context.Context) error {
 	args = append(args, m.Args...)
 
 	cmd := exec.CommandContext(ctx, driver, args...)
-	cmd.Dir = m.Topdir
+	cmd.Dir = topdir
 	cmd.Stdin, cmd.Stdout, cmd.Stderr = os.Stdin, os.Stdout, os.Stderr
 	err = cmd.Run()
 	return errors.Wrapf(err, "running %s %s", driver, strings.Join(args, " "))
-- 
2.43.0


From 7dd05f274c22c48dc1e5988cf5d8ed7c020d18b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:46 +0000
Subject: [PATCH 14/39] fix: compile a driver for every exported target
 variable, and only for variables

A variable whose declared type comes from the _fab package had no doc string,
not even an empty one, in the generated driver, which then did not compile. Nor did
it when an exported type of the _fab package had the methods of a target.
---
 compile.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/compile.go b/compile.go
index fb540d1..9fdb771 100644
--- a/compile.go
+++ b/compile.go
@@ -7,6 +7,7 @@ import (
 	"go/doc"
 	"go/parser"
 	"go/token"
+	"go/types"
 	"io"
 	"os"
 	"os/exec"
@@ -123,14 +124,15 @@ func CompilePackage(ctx context.Context, pkg *packages.Package, binfile string)
 		if !ast.IsExported(ident) {
 			continue
 		}
-		obj := scope.Lookup(ident)
-		if obj == nil {
+		obj, ok := scope.Lookup(ident).(*types.Var)
+		if !ok {
+			// Types and functions are not targets, even if they have a target's methods.
 			continue
 		}
 		if err := checkImplementsTarget(obj.Type()); err != nil {
 			continue
 		}
-		targets[ident] = &targetPair{Name: ident}
+		targets[ident] = &targetPair{Name: ident, Doc: strconv.Quote("")}
 	}
 
 	var (
@@ -138,7 +140,12 @@ func CompilePackage(ctx context.Context, pkg *packages.Package, binfile string)
 		parser = dpkg.Parser()
 		pr     = dpkg.Printer()
 	)
-	for _, v := range dpkg.Vars {
+	// A variable declared with a type from this package is grouped with that type.
+	vars := dpkg.Vars
+	for _, t := range dpkg.Types {
+		vars = append(vars, t.Vars...)
+	}
+	for _, v := range vars {
 		for _, name := range v.Names {
 			if tp, ok := targets[name]; ok {
 				dstr := string(pr.Text(parser.Parse(v.Doc)))
-- 
2.43.0


From 4309b446f59dc005f0e1d3bfdfc354e78b835e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:55 +0000
Subject: [PATCH 15/39] fix: ignore files that are not part of the _fab package
 when compiling the driver

An external test package or a file excluded by a build constraint, with another
package name, made compilation fail.
---
 compile.go | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/compile.go b/compile.go
index 9fdb771..50c0f65 100644
--- a/compile.go
+++ b/compile.go
@@ -9,6 +9,7 @@ import (
 	"go/token"
 	"go/types"
 	"io"
+	"io/fs"
 	"os"
 	"os/exec"
 	"path/filepath"
@@ -18,6 +19,7 @@ import (
 
 	"github.com/bobg/errors"
 	"github.com/bobg/go-generics/v2/maps"
+	"github.com/bobg/go-generics/v2/set"
 	"github.com/bobg/go-generics/v2/slices"
 	"golang.org/x/mod/modfile"
 	"golang.org/x/tools/go/packages"
@@ -92,10 +94,19 @@ func CompilePackage(ctx context.Context, pkg *packages.Package, binfile string)
 	}
 
 	var (
-		fset   = token.NewFileSet()
-		pkgdir = filepath.Dir(pkg.GoFiles[0])
+		fset    = token.NewFileSet()
+		pkgdir  = filepath.Dir(pkg.GoFiles[0])
+		gofiles = set.New[string]()
 	)
-	astpkgs, err := parser.ParseDir(fset, pkgdir, nil, parser.ParseComments)
+	for _, f := range pkg.GoFiles {
+		gofiles.Add(filepath.Base(f))
+	}
+
+	// Consider only the files that are part of the package,
+	// not tests or files excluded by build constraints.
+	isGoFile := func(info fs.FileInfo) bool { return gofiles.Has(info.Name()) }
+
+	astpkgs, err := parser.ParseDir(fset, pkgdir, isGoFile, parser.ParseComments)
 	if err != nil {
 		return errors.Wrapf(err, "parsing %s", pkgdir)
 	}
-- 
2.43.0


From ca6ddb017295e94fe760e0b0f10fa35677fa87c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:23 +0000
Subject: [PATCH 16/39] fix: format every line of a target's doc string, not
 just the first

Listing targets indented only the first line, and only the first line of a
YAML comment had its comment marker removed.
---
 main.go | 2 +-
 yaml.go | 6 +++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/main.go b/main.go
index 0fda8f9..7c490aa 100644
--- a/main.go
+++ b/main.go
@@ -156,7 +156,7 @@ func (m *Main) driverless(ctx context.Context) error {
 	return con.Run(ctx, targets...)
 }
 
-var bolRegex = regexp.MustCompile("^")
+var bolRegex = regexp.MustCompile("(?m)^")
 
 // OpenHashDB ensures the given directory exists and opens (or creates) the hash DB there.
 // Callers must make sure to call Close on the returned DB when finished with it.
diff --git a/yaml.go b/yaml.go
index f87b257..f02e987 100644
--- a/yaml.go
+++ b/yaml.go
@@ -236,7 +236,11 @@ func (con *Controller) ReadYAML(r io.Reader, dir string) error {
 		if doc == "" {
 			doc = nameNode.LineComment
 		}
-		doc = strings.TrimLeft(doc, "# ")
+		docLines := strings.Split(doc, "\n")
+		for i, line := range docLines {
+			docLines[i] = strings.TrimLeft(line, "# ")
+		}
+		doc = strings.Join(docLines, "\n")
 
 		if name == "_dir" {
 			decl := m.Content[i+1]
-- 
2.43.0


From a444333e4dad5ea6cdd78f1aeb24fbad0bbf5d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:32 +0000
Subject: [PATCH 17/39] fix: do not reorder the caller's list of files in Clean

---
 clean.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/clean.go b/clean.go
index 1cc3cfb..8167a4b 100644
--- a/clean.go
+++ b/clean.go
@@ -36,7 +36,9 @@ type Clean struct {
 
 // Run implements Target.Run.
 func (c *Clean) Run(ctx context.Context, con *Controller) error {
-	files := c.Files
+	// Work on a copy, leaving c unchanged:
+	// its contents may be shared, and may contribute to a hash.
+	files := append([]string(nil), c.Files...)
 	if c.Autoclean {
 		autocleanMu.Lock()
 		autocleanFiles := autocleanRegistry.Slice()
-- 
2.43.0


From d265e85d9f3f4b6103c3b11bf2c28fd16ef2f5d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:41 +0000
Subject: [PATCH 18/39] fix: name the output of go.Binary after its directory
 when Dir is . or ..

The default output file was ".", the directory itself, which was then
listed as an output to be removed by Clean.
---
 golang/go.go | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/golang/go.go b/golang/go.go
index ea769e2..ec9e027 100644
--- a/golang/go.go
+++ b/golang/go.go
@@ -34,7 +34,11 @@ import (
 // it defaults to the last path element of Dir.
 func Binary(dir, outfile string, flags ...string) (fab.Target, error) {
 	if outfile == "" {
-		outfile = filepath.Base(dir)
+		absdir, err := filepath.Abs(dir)
+		if err != nil {
+			return nil, errors.Wrapf(err, "making %s absolute", dir)
+		}
+		outfile = filepath.Base(absdir)
 	}
 
 	relOutfile, err := filepath.Rel(dir, outfile)
@@ -75,9 +79,16 @@ func binaryDecoder(con *fab.Controller, node *yaml.Node, dir string) (fab.Target
 		return nil, errors.Wrap(err, "YAML error decoding go.Binary")
 	}
 
+	bdir := con.JoinPath(dir, b.Dir)
+
 	out := b.Out
 	if out == "" {
-		out = filepath.Base(b.Dir)
+		// Not filepath.Base(b.Dir), which may be "." or "..".
+		absdir, err := filepath.Abs(bdir)
+		if err != nil {
+			return nil, errors.Wrapf(err, "making %s absolute", bdir)
+		}
+		out = filepath.Base(absdir)
 	}
 
 	flags, err := con.YAMLStringList(&b.Flags, dir)
@@ -85,7 +96,7 @@ func binaryDecoder(con *fab.Controller, node *yaml.Node, dir string) (fab.Target
 		return nil, errors.Wrap(err, "YAML error decoding go.Binary.Flags")
 	}
 
-	return Binary(con.JoinPath(dir, b.Dir), con.JoinPath(dir, out), flags...)
+	return Binary(bdir, con.JoinPath(dir, out), flags...)
 }
 
 // Deps produces the list of files involved in building the Go package in the given directory.
-- 
2.43.0


From 5064a9fcab3375a2de1ef8e3a1f8a21983a8dda0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:20 +0000
Subject: [PATCH 19/39] fix: recognize every form of import in proto.Deps

Weak imports, single-quoted names, indented imports
and several imports on one line were missed.
---
 proto/proto.go | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/proto/proto.go b/proto/proto.go
index 856d0cc..f8928b8 100644
--- a/proto/proto.go
+++ b/proto/proto.go
@@ -110,17 +110,15 @@ func Deps(filename string, includes []string) ([]string, error) {
 	return slice, err
 }
 
-var importRegex = regexp.MustCompile(`^import(\s+public)?\s*"([^"]+)"`)
+var importRegex = regexp.MustCompile(`(?:^|;)\s*import(?:\s+(?:public|weak))?\s*(?:"([^"]+)"|'([^']+)')`)
 
 func protodeps(r io.Reader, includes []string, result set.Of[string]) error {
 	sc := bufio.NewScanner(r)
 	for sc.Scan() {
-		m := importRegex.FindStringSubmatch(sc.Text())
-		if len(m) == 0 {
-			continue
-		}
-		if err := protodepsImport(m[2], includes, result); err != nil {
-			return err
+		for _, m := range importRegex.FindAllStringSubmatch(sc.Text(), -1) {
+			if err := protodepsImport(m[1]+m[2], includes, result); err != nil {
+				return err
+			}
 		}
 	}
 	return sc.Err()
-- 
2.43.0


From f70d0056a95332ca0c534ec97d67ab00b64b2caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:29 +0000
Subject: [PATCH 20/39] fix: stop at the first include directory that has an
 import in proto.Deps

When a file was imported a second time, a different file of the same name in
a later include directory was added to the dependencies.
---
 proto/proto.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proto/proto.go b/proto/proto.go
index f8928b8..4a2dffe 100644
--- a/proto/proto.go
+++ b/proto/proto.go
@@ -129,7 +129,7 @@ func protodepsImport(imp string, includes []string, result set.Of[string]) error
 		full := filepath.Join(inc, imp)
 
 		if result.Has(full) {
-			continue
+			return nil
 		}
 
 		f, err := os.Open(full)
-- 
2.43.0


From aa56d8ab8833d26989d252062fe91ef256fcab3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:39 +0000
Subject: [PATCH 21/39] fix: interpret proto.Deps Includes relative to the YAML
 file's directory

---
 proto/proto.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/proto/proto.go b/proto/proto.go
index 4a2dffe..0854088 100644
--- a/proto/proto.go
+++ b/proto/proto.go
@@ -149,13 +149,17 @@ func protodepsImport(imp string, includes []string, result set.Of[string]) error
 
 func protodepsDecoder(con *fab.Controller, node *yaml.Node, dir string) ([]string, error) {
 	var pd struct {
-		File     string   `yaml:"File"`
-		Includes []string `yaml:"Includes"`
+		File     string    `yaml:"File"`
+		Includes yaml.Node `yaml:"Includes"`
 	}
 	if err := node.Decode(&pd); err != nil {
 		return nil, errors.Wrap(err, "YAML error in proto.Deps node")
 	}
-	return Deps(con.JoinPath(dir, pd.File), pd.Includes)
+	includes, err := con.YAMLFileList(&pd.Includes, dir)
+	if err != nil {
+		return nil, errors.Wrap(err, "parsing include list")
+	}
+	return Deps(con.JoinPath(dir, pd.File), includes)
 }
 
 func init() {
-- 
2.43.0


From 87eab594d99bf084902befbc3f7b4b0a794f552e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:47 +0000
Subject: [PATCH 22/39] fix: compile the driver when the temp directory is on
 another filesystem

Renaming the new binary into place failed in that case.
---
 compile.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/compile.go b/compile.go
index 50c0f65..2874f36 100644
--- a/compile.go
+++ b/compile.go
@@ -261,14 +261,28 @@ func CompilePackage(ctx context.Context, pkg *packages.Package, binfile string)
 		return fmt.Errorf("error in go mod tidy: %w; output follows\n%s", err, string(output))
 	}
 
-	cmd = exec.CommandContext(ctx, "go", "build")
+	// Build in the destination directory and then rename into place.
+	// The temp directory may be on a different filesystem, where renaming would fail.
+	binfile, err = filepath.Abs(binfile)
+	if err != nil {
+		return errors.Wrapf(err, "making %s absolute", binfile)
+	}
+	bindir, err := os.MkdirTemp(filepath.Dir(binfile), "fab")
+	if err != nil {
+		return errors.Wrapf(err, "creating tempdir in %s", filepath.Dir(binfile))
+	}
+	defer os.RemoveAll(bindir)
+
+	tmpbin := filepath.Join(bindir, "x")
+
+	cmd = exec.CommandContext(ctx, "go", "build", "-o", tmpbin)
 	cmd.Dir = tmpdir
 	output, err = cmd.CombinedOutput()
 	if err != nil {
 		return fmt.Errorf("error in go build: %w; output follows\n%s", err, string(output))
 	}
 
-	return os.Rename(filepath.Join(tmpdir, "x"), binfile)
+	return os.Rename(tmpbin, binfile)
 }
 
 // LoadMode is the minimal set of flags to enable for Config.Mode in a call to Packages.Load
-- 
2.43.0


From f7db92826679185e1fa65cdf5acd3820dbc10b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:39 +0000
Subject: [PATCH 23/39] fix: accept a _dir declaration that looks like a number

TopDir ignored the declaration in that case and took the subdirectory
for the top directory.
---
 top.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/top.go b/top.go
index 2708605..52c7b5f 100644
--- a/top.go
+++ b/top.go
@@ -63,15 +63,16 @@ func topDirHelper(dir string) (string, error) {
 	defer rc.Close()
 
 	dec := yaml.NewDecoder(rc)
-	var m map[string]any
+	var m struct {
+		Dir *string `yaml:"_dir"`
+	}
 	if err = dec.Decode(&m); err != nil {
 		return "", errors.Wrapf(err, "reading YAML file in %s", dir)
 	}
-
-	decl, ok := m["_dir"].(string)
-	if !ok {
+	if m.Dir == nil {
 		return dir, nil
 	}
+	decl := *m.Dir
 
 	if filepath.IsAbs(decl) {
 		return "", fmt.Errorf("absolute pathname %s in _dir decl in %s", decl, dir)
-- 
2.43.0


From c732d38323f7d4ed467e0b0c88a4135f3ceda85e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:59 +0000
Subject: [PATCH 24/39] fix: return an error instead of panicking when the
 package in go.Deps has no module

---
 golang/go.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/golang/go.go b/golang/go.go
index ec9e027..fcacf75 100644
--- a/golang/go.go
+++ b/golang/go.go
@@ -1,6 +1,7 @@
 package golang
 
 import (
+	"fmt"
 	"path/filepath"
 	"sort"
 
@@ -131,6 +132,9 @@ func Deps(dir string, recursive, tests bool) ([]string, error) {
 
 	files := set.New[string]()
 	for _, pkg := range pkgs {
+		if pkg.Module == nil {
+			return nil, fmt.Errorf("package %s in %s is not part of a module", pkg.PkgPath, dir)
+		}
 		if err = gopkgAdd(pkg, pkg.Module.Path, files); err != nil {
 			return nil, errors.Wrapf(err, "adding files from %s", pkg.PkgPath)
 		}
-- 
2.43.0


From caea0a45ae843ffa860790af8e2744ff141fc1b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:39 +0000
Subject: [PATCH 25/39] fix: return an error when the YAML library panics on
 malformed input

---
 top.go  |  4 +++-
 yaml.go | 13 ++++++++++++-
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/top.go b/top.go
index 52c7b5f..d9ae75d 100644
--- a/top.go
+++ b/top.go
@@ -52,7 +52,9 @@ func TopDir(dir string) (string, error) {
 	}
 }
 
-func topDirHelper(dir string) (string, error) {
+func topDirHelper(dir string) (_ string, err error) {
+	defer recoverYAML(&err)
+
 	rc, err := openFabYAML(dir)
 	if errors.Is(err, fs.ErrNotExist) {
 		return "", nil
diff --git a/yaml.go b/yaml.go
index f02e987..44cc67c 100644
--- a/yaml.go
+++ b/yaml.go
@@ -184,7 +184,9 @@ func (dt *deferredResolutionTarget) Desc() string {
 //
 //	Test: !Command
 //	  - go test ./...
-func (con *Controller) ReadYAML(r io.Reader, dir string) error {
+func (con *Controller) ReadYAML(r io.Reader, dir string) (err error) {
+	defer recoverYAML(&err)
+
 	var (
 		dec = yaml.NewDecoder(r)
 		doc yaml.Node
@@ -283,6 +285,15 @@ func (con *Controller) ReadYAML(r io.Reader, dir string) error {
 	return nil
 }
 
+// The YAML library panics on some malformed input,
+// such as a mapping that has both a merge key and a key that is not a scalar.
+// Deferring this function turns that into an error.
+func recoverYAML(err *error) {
+	if r := recover(); r != nil {
+		*err = fmt.Errorf("panic while decoding YAML: %v", r)
+	}
+}
+
 // ReadYAMLFile calls ReadYAML
 // on the file `fab.yaml` in the given directory
 // or, if that doesn't exist,
-- 
2.43.0


From ce8bf5ca294affddc4832aeb5d9bab9a8e5bee37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:59 +0000
Subject: [PATCH 26/39] fix: go.Deps listed embedded directories, and files
 elsewhere that match the package's directory as a pattern

---
 golang/go.go | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/golang/go.go b/golang/go.go
index fcacf75..4bde8be 100644
--- a/golang/go.go
+++ b/golang/go.go
@@ -106,7 +106,7 @@ func binaryDecoder(con *fab.Controller, node *yaml.Node, dir string) (fab.Target
 // The list is sorted for consistent, predictable results.
 func Deps(dir string, recursive, tests bool) ([]string, error) {
 	config := &packages.Config{
-		Mode:  packages.NeedName | packages.NeedFiles | packages.NeedEmbedFiles | packages.NeedEmbedPatterns | packages.NeedTypes | packages.NeedDeps | packages.NeedImports | packages.NeedModule,
+		Mode:  packages.NeedName | packages.NeedFiles | packages.NeedEmbedFiles | packages.NeedTypes | packages.NeedDeps | packages.NeedImports | packages.NeedModule,
 		Dir:   dir,
 		Tests: tests,
 	}
@@ -156,13 +156,6 @@ func gopkgAdd(pkg *packages.Package, modpath string, files set.Of[string]) error
 	files.Add(pkg.CompiledGoFiles...)
 	files.Add(pkg.OtherFiles...)
 	files.Add(pkg.EmbedFiles...)
-	for _, pattern := range pkg.EmbedPatterns {
-		matches, err := filepath.Glob(pattern)
-		if err != nil {
-			return errors.Wrapf(err, "in pattern %s", pattern)
-		}
-		files.Add(matches...)
-	}
 	for _, imp := range pkg.Imports {
 		if err := gopkgAdd(imp, modpath, files); err != nil {
 			return errors.Wrapf(err, "in import of %s", imp.PkgPath)
-- 
2.43.0


From d48480dcc672e8ec26b47e337062d546cc35640d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:11 +0000
Subject: [PATCH 27/39] fix: go.Deps took time exponential in the number of
 packages that import each other

---
 golang/go.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/golang/go.go b/golang/go.go
index 4bde8be..d87e627 100644
--- a/golang/go.go
+++ b/golang/go.go
@@ -130,12 +130,15 @@ func Deps(dir string, recursive, tests bool) ([]string, error) {
 		return nil, errors.Wrapf(err, "after loading from %s", dir)
 	}
 
-	files := set.New[string]()
+	var (
+		files = set.New[string]()
+		seen  = set.New[*packages.Package]()
+	)
 	for _, pkg := range pkgs {
 		if pkg.Module == nil {
 			return nil, fmt.Errorf("package %s in %s is not part of a module", pkg.PkgPath, dir)
 		}
-		if err = gopkgAdd(pkg, pkg.Module.Path, files); err != nil {
+		if err = gopkgAdd(pkg, pkg.Module.Path, files, seen); err != nil {
 			return nil, errors.Wrapf(err, "adding files from %s", pkg.PkgPath)
 		}
 	}
@@ -145,19 +148,23 @@ func Deps(dir string, recursive, tests bool) ([]string, error) {
 	return slice, nil
 }
 
-func gopkgAdd(pkg *packages.Package, modpath string, files set.Of[string]) error {
+func gopkgAdd(pkg *packages.Package, modpath string, files set.Of[string], seen set.Of[*packages.Package]) error {
 	if pkg.Module == nil {
 		return nil
 	}
 	if pkg.Module.Path != modpath {
 		return nil
 	}
+	if seen.Has(pkg) {
+		return nil
+	}
+	seen.Add(pkg)
 	files.Add(pkg.GoFiles...)
 	files.Add(pkg.CompiledGoFiles...)
 	files.Add(pkg.OtherFiles...)
 	files.Add(pkg.EmbedFiles...)
 	for _, imp := range pkg.Imports {
-		if err := gopkgAdd(imp, modpath, files); err != nil {
+		if err := gopkgAdd(imp, modpath, files, seen); err != nil {
 			return errors.Wrapf(err, "in import of %s", imp.PkgPath)
 		}
 	}
-- 
2.43.0


From 7e1441b581e224da3ccd1c12ab4a51938ee3b1cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:44 +0000
Subject: [PATCH 28/39] fix: go.Binary depended on the wrong files when its
 flags affect which files are built (e.g. -tags)

---
 golang/go.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/golang/go.go b/golang/go.go
index d87e627..4733cc6 100644
--- a/golang/go.go
+++ b/golang/go.go
@@ -47,7 +47,7 @@ func Binary(dir, outfile string, flags ...string) (fab.Target, error) {
 		return nil, errors.Wrapf(err, "getting relative path from %s to %s", dir, outfile)
 	}
 
-	deps, err := Deps(dir, false, false)
+	deps, err := depsWithFlags(dir, false, false, flags)
 	if err != nil {
 		return nil, errors.Wrapf(err, "computing dependencies")
 	}
@@ -105,10 +105,17 @@ func binaryDecoder(con *fab.Controller, node *yaml.Node, dir string) (fab.Target
 // but only within the original package's module.
 // The list is sorted for consistent, predictable results.
 func Deps(dir string, recursive, tests bool) ([]string, error) {
+	return depsWithFlags(dir, recursive, tests, nil)
+}
+
+// The build flags (e.g. -tags) can affect which files are involved.
+func depsWithFlags(dir string, recursive, tests bool, flags []string) ([]string, error) {
 	config := &packages.Config{
 		Mode:  packages.NeedName | packages.NeedFiles | packages.NeedEmbedFiles | packages.NeedTypes | packages.NeedDeps | packages.NeedImports | packages.NeedModule,
 		Dir:   dir,
 		Tests: tests,
+
+		BuildFlags: flags,
 	}
 
 	arg := "."
-- 
2.43.0


From c1fe0907d5b8943d8b8c98aa3a1c2947cf772e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:51 +0000
Subject: [PATCH 29/39] fix: go.Binary failed with an absolute directory and a
 relative output, and wrote the output to the wrong place when the directory
 is a symbolic link

---
 golang/go.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/golang/go.go b/golang/go.go
index 4733cc6..fd8a45d 100644
--- a/golang/go.go
+++ b/golang/go.go
@@ -42,16 +42,18 @@ func Binary(dir, outfile string, flags ...string) (fab.Target, error) {
 		outfile = filepath.Base(absdir)
 	}
 
-	relOutfile, err := filepath.Rel(dir, outfile)
+	// Not a path relative to dir,
+	// which is possibly a symbolic link.
+	absOutfile, err := filepath.Abs(outfile)
 	if err != nil {
-		return nil, errors.Wrapf(err, "getting relative path from %s to %s", dir, outfile)
+		return nil, errors.Wrapf(err, "making %s absolute", outfile)
 	}
 
 	deps, err := depsWithFlags(dir, false, false, flags)
 	if err != nil {
 		return nil, errors.Wrapf(err, "computing dependencies")
 	}
-	args := append([]string{"build", "-C", dir, "-o", relOutfile}, flags...)
+	args := append([]string{"build", "-C", dir, "-o", absOutfile}, flags...)
 	args = append(args, ".")
 	c := &fab.Command{
 		Cmd:  "go",
-- 
2.43.0


From bf2b427871ffc6c2ee5387668c10aabdcb6ece24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:37 +0000
Subject: [PATCH 30/39] fix: an error from fab.yaml was ignored when it was
 about some other file that does not exist

---
 yaml.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/yaml.go b/yaml.go
index 44cc67c..9fbf1e8 100644
--- a/yaml.go
+++ b/yaml.go
@@ -315,6 +315,11 @@ func (con *Controller) ReadYAMLFile(dir string) error {
 	}
 
 	err = con.ReadYAML(f, rel)
+	if errors.Is(err, fs.ErrNotExist) {
+		// Some other file does not exist.
+		// Callers must not mistake this for the absence of the YAML file itself.
+		err = fmt.Errorf("%s", err)
+	}
 	return errors.Wrapf(err, "reading YAML file in %s", dir)
 }
 
-- 
2.43.0


From b6f85de4a38aa37044b10de01a04387f3823dc7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:47 +0000
Subject: [PATCH 31/39] fix: proto.Deps missed imports that span lines or
 follow long lines, and took some text in comments for imports

---
 proto/proto.go | 37 ++++++++++++++++++++++++++++---------
 1 file changed, 28 insertions(+), 9 deletions(-)

diff --git a/proto/proto.go b/proto/proto.go
index 0854088..ac81ac1 100644
--- a/proto/proto.go
+++ b/proto/proto.go
@@ -1,13 +1,13 @@
 package proto
 
 import (
-	"bufio"
 	"io"
 	"io/fs"
 	"os"
 	"path/filepath"
 	"regexp"
 	"sort"
+	"strings"
 
 	"github.com/bobg/errors"
 	"github.com/bobg/go-generics/v2/set"
@@ -110,18 +110,37 @@ func Deps(filename string, includes []string) ([]string, error) {
 	return slice, err
 }
 
-var importRegex = regexp.MustCompile(`(?:^|;)\s*import(?:\s+(?:public|weak))?\s*(?:"([^"]+)"|'([^']+)')`)
+// Comments, string literals, words, and other characters.
+var tokenRegex = regexp.MustCompile(`//[^\n]*|(?s:/\*.*?\*/)|"(?:[^"\\\n]|\\.)*"|'(?:[^'\\\n]|\\.)*'|\w+|\S`)
 
 func protodeps(r io.Reader, includes []string, result set.Of[string]) error {
-	sc := bufio.NewScanner(r)
-	for sc.Scan() {
-		for _, m := range importRegex.FindAllStringSubmatch(sc.Text(), -1) {
-			if err := protodepsImport(m[1]+m[2], includes, result); err != nil {
-				return err
-			}
+	content, err := io.ReadAll(r)
+	if err != nil {
+		return err
+	}
+
+	// An import statement is the word import,
+	// possibly another word (public or weak),
+	// and a string.
+	var stmt []string
+	for _, tok := range tokenRegex.FindAllString(string(content), -1) {
+		switch {
+		case strings.HasPrefix(tok, "//"), strings.HasPrefix(tok, "/*"):
+			continue
+		case tok == ";", tok == "{", tok == "}":
+			stmt = nil
+			continue
 		}
+		stmt = append(stmt, tok)
+		if stmt[0] != "import" || len(stmt) > 3 || (tok[0] != '"' && tok[0] != '\'') || len(tok) < 2 {
+			continue
+		}
+		if err := protodepsImport(tok[1:len(tok)-1], includes, result); err != nil {
+			return err
+		}
+		stmt = nil
 	}
-	return sc.Err()
+	return nil
 }
 
 func protodepsImport(imp string, includes []string, result set.Of[string]) error {
-- 
2.43.0


From c12b1adf99ce52bfbb048efc455465f9ce4316de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:37 +0000
Subject: [PATCH 32/39] fix: ts.Decls did not regenerate when the generator's
 input changed in a test file or one excluded by build constraints

---
 ts/tsdecls.go | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/ts/tsdecls.go b/ts/tsdecls.go
index 09c919e..0df5f89 100644
--- a/ts/tsdecls.go
+++ b/ts/tsdecls.go
@@ -3,8 +3,12 @@ package ts
 import (
 	"context"
 	"os"
+	"path/filepath"
+	"sort"
+	"strings"
 
 	"github.com/bobg/errors"
+	"github.com/bobg/go-generics/v2/set"
 	"github.com/bobg/tsdecls"
 	"gopkg.in/yaml.v3"
 
@@ -39,6 +43,25 @@ func Decls(dir, typename, prefix, outfile string, opts ...fab.FilesOpt) (fab.Tar
 	if err != nil {
 		return nil, errors.Wrapf(err, "getting deps for %s", dir)
 	}
+	// Tsdecls parses all of the Go files in dir,
+	// including tests and those excluded by build constraints.
+	absdir, err := filepath.Abs(dir)
+	if err != nil {
+		return nil, errors.Wrapf(err, "making %s absolute", dir)
+	}
+	entries, err := os.ReadDir(absdir)
+	if err != nil {
+		return nil, errors.Wrapf(err, "reading %s", absdir)
+	}
+	inputs := set.New[string](gopkg...)
+	for _, entry := range entries {
+		if !entry.IsDir() && strings.HasSuffix(entry.Name(), ".go") {
+			inputs.Add(filepath.Join(absdir, entry.Name()))
+		}
+	}
+	gopkg = inputs.Slice()
+	sort.Strings(gopkg)
+
 	subtarget := &declsType{
 		Dir:      dir,
 		Typename: typename,
-- 
2.43.0


From ab3cc30fca819191a758d376e80364491966891c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:46 +0000
Subject: [PATCH 33/39] fix: a method whose parameter has a type merely named
 like one of Target's was taken for Target's, and the driver did not compile

---
 types.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/types.go b/types.go
index 5a41ffd..08dfa2b 100644
--- a/types.go
+++ b/types.go
@@ -265,6 +265,13 @@ func (ch *typeChecker) checkTypesMatch(t types.Type, r reflect.Type) (err error)
 		if t.Obj().Name() != r.Name() {
 			return fmt.Errorf("names %s and %s do not match", t.Obj().Name(), r.Name())
 		}
+		var pkgpath string // empty for predeclared types
+		if pkg := t.Obj().Pkg(); pkg != nil {
+			pkgpath = pkg.Path()
+		}
+		if pkgpath != r.PkgPath() {
+			return fmt.Errorf("packages %s and %s of type %s do not match", pkgpath, r.PkgPath(), r.Name())
+		}
 		return ch.checkTypesMatch(t.Underlying(), r)
 
 	case *types.Pointer:
-- 
2.43.0


From f717d746e34b4a4a85607d4c277c880b62fbe01c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:00 +0000
Subject: [PATCH 34/39] fix: the driver did not compile when the name of the
 _fab package is not usable in an import path

---
 compile.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/compile.go b/compile.go
index 2874f36..687a04e 100644
--- a/compile.go
+++ b/compile.go
@@ -176,7 +176,10 @@ func CompilePackage(ctx context.Context, pkg *packages.Package, binfile string)
 		return errors.Wrap(err, "copying fab code")
 	}
 
-	subpkgdir := filepath.Join(tmpdir, "pkg", pkg.Name)
+	// Some package names, such as "internal", are not usable in an import path.
+	const subpkg = "subpkg"
+
+	subpkgdir := filepath.Join(tmpdir, "pkg", subpkg)
 	if err = os.MkdirAll(subpkgdir, 0755); err != nil {
 		return errors.Wrapf(err, "creating %s", subpkgdir)
 	}
@@ -205,7 +208,7 @@ func CompilePackage(ctx context.Context, pkg *packages.Package, binfile string)
 		Subpkg  string
 		Targets []*targetPair
 	}{
-		Subpkg:  pkg.Name,
+		Subpkg:  subpkg,
 		Targets: maps.Values(targets),
 	}
 
-- 
2.43.0


From 485430a2a1bdae1bbad831ea98ffec665315feeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:24 +0000
Subject: [PATCH 35/39] fix: the doc comment of a target variable declared in a
 group was ignored

---
 compile.go | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/compile.go b/compile.go
index 687a04e..fff522f 100644
--- a/compile.go
+++ b/compile.go
@@ -156,12 +156,23 @@ func CompilePackage(ctx context.Context, pkg *packages.Package, binfile string)
 	for _, t := range dpkg.Types {
 		vars = append(vars, t.Vars...)
 	}
+	setDoc := func(name, text string) {
+		if tp, ok := targets[name]; ok {
+			dstr := string(pr.Text(parser.Parse(text)))
+			dstr = strings.TrimRight(dstr, "\r\n")
+			tp.Doc = strconv.Quote(dstr)
+		}
+	}
 	for _, v := range vars {
 		for _, name := range v.Names {
-			if tp, ok := targets[name]; ok {
-				dstr := string(pr.Text(parser.Parse(v.Doc)))
-				dstr = strings.TrimRight(dstr, "\r\n")
-				tp.Doc = strconv.Quote(dstr)
+			setDoc(name, v.Doc)
+		}
+		// In a group of variables, each may have a doc comment of its own.
+		for _, spec := range v.Decl.Specs {
+			if vs, ok := spec.(*ast.ValueSpec); ok && vs.Doc != nil {
+				for _, name := range vs.Names {
+					setDoc(name.Name, vs.Doc.Text())
+				}
 			}
 		}
 	}
-- 
2.43.0


From 60b9784009418870ec1686bcea65ab078ffe42db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:33 +0000
Subject: [PATCH 36/39] fix: an argument after -- was taken for a flag by the
 driver

---
 main.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/main.go b/main.go
index 7c490aa..a48a374 100644
--- a/main.go
+++ b/main.go
@@ -110,6 +110,7 @@ func (m *Main) Run(ctx context.Context) error {
 	if m.DryRun {
 		args = append(args, "-n")
 	}
+	args = append(args, "--") // none of the following is a flag for the driver
 	args = append(args, m.Args...)
 
 	cmd := exec.CommandContext(ctx, driver, args...)
-- 
2.43.0


From cccc8533fb374507ba7423cbf9196997a53a2d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:43 +0000
Subject: [PATCH 37/39] fix: without a driver, fab with no arguments did not
 list the targets as a driver does

---
 main.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/main.go b/main.go
index a48a374..cd90892 100644
--- a/main.go
+++ b/main.go
@@ -133,7 +133,14 @@ func (m *Main) driverless(ctx context.Context) error {
 		return errors.Wrap(err, "reading YAML file")
 	}
 
-	if m.List {
+	list := m.List
+	if len(m.Args) == 0 && !list {
+		// As in the driver.
+		fmt.Print("Specify one or more of the following targets:\n\n")
+		list = true
+	}
+
+	if list {
 		con.ListTargets(os.Stdout)
 		return nil
 	}
-- 
2.43.0


From f631656972066271fa086d5bfb44027c218b368e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:15 +0000
Subject: [PATCH 38/39] fix: find the producer of an input file however its
 name is spelled

---
 files.go | 33 ++++++++++++++++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/files.go b/files.go
index 087b377..35796fa 100644
--- a/files.go
+++ b/files.go
@@ -104,7 +104,7 @@ func Files(target Target, in, out []string, opts ...FilesOpt) Target {
 	}
 
 	for _, o := range out {
-		filesRegistry.add(o, result)
+		filesRegistry.add(filepath.Clean(o), result)
 	}
 
 	return result
@@ -215,7 +215,38 @@ func (ft *files) runPrereqs(ctx context.Context, con *Controller) error {
 	return con.Run(ctx, prereqs...)
 }
 
+// Finds the target that has the named file,
+// or a directory above it,
+// among its outputs.
+// The same file may be spelled differently there,
+// e.g. as an absolute path instead of a relative one.
 func findInFilesRegistry(name string) *files {
+	name = filepath.Clean(name)
+
+	if target := findNameInFilesRegistry(name); target != nil {
+		return target
+	}
+
+	if !filepath.IsAbs(name) {
+		abs, err := filepath.Abs(name)
+		if err != nil {
+			return nil
+		}
+		return findNameInFilesRegistry(abs)
+	}
+
+	wd, err := os.Getwd()
+	if err != nil {
+		return nil
+	}
+	rel, err := filepath.Rel(wd, name)
+	if err != nil {
+		return nil
+	}
+	return findNameInFilesRegistry(rel)
+}
+
+func findNameInFilesRegistry(name string) *files {
 	for {
 		if target, ok := filesRegistry.lookup(name); ok {
 			return target
-- 
2.43.0


From bb8ae54292c010690917f05c5b2d3d51cd6478f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:14:10 +0000
Subject: [PATCH 39/39] fix: a run that is interrupted while it replaces the
 driver does not leave the old hash with the new driver

---
 main.go | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/main.go b/main.go
index cd90892..3512e48 100644
--- a/main.go
+++ b/main.go
@@ -297,11 +297,24 @@ func (m *Main) getDriver(ctx context.Context, skipVersionCheck bool) (_ string,
 		return driver, nil
 	}
 
-	if err = CompilePackage(ctx, pkg, driver); err != nil {
+	tmpdir, err := os.MkdirTemp(driverdir, "fab")
+	if err != nil {
+		return "", errors.Wrapf(err, "creating tempdir in %s", driverdir)
+	}
+	defer os.RemoveAll(tmpdir)
+
+	tmpdriver := filepath.Join(tmpdir, "fab.bin")
+	if err = CompilePackage(ctx, pkg, tmpdriver); err != nil {
 		return "", errors.Wrapf(err, "compiling driver %s", driver)
 	}
-	if err = os.WriteFile(hashfile, []byte(newhash), 0644); err != nil {
-		return "", errors.Wrapf(err, "writing %s", hashfile)
+
+	// If we are interrupted while replacing the driver,
+	// the old hash must not remain with the new driver.
+	if err = os.Remove(hashfile); err != nil && !errors.Is(err, fs.ErrNotExist) {
+		return "", errors.Wrapf(err, "removing %s", hashfile)
+	}
+	if err = os.Rename(tmpdriver, driver); err != nil {
+		return "", errors.Wrapf(err, "renaming %s to %s", tmpdriver, driver)
 	}
 	if buildInfo == nil && !skipVersionCheck {
 		// The version check was skipped above, or found no change.
@@ -325,6 +338,12 @@ func (m *Main) getDriver(ctx context.Context, skipVersionCheck bool) (_ string,
 		}
 	}
 
+	// This comes last:
+	// with it, the driver and the version file are taken to be up to date.
+	if err = os.WriteFile(hashfile, []byte(newhash), 0644); err != nil {
+		return "", errors.Wrapf(err, "writing %s", hashfile)
+	}
+
 	return driver, nil
 }
 
-- 
2.43.0

