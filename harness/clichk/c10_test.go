package clichk

import (
	"archive/tar"
	"bytes"
	"compress/gzip"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"reflect"
	"strings"
	"syscall"
	"testing"
	"time"

	ociv1 "github.com/google/go-containerregistry/pkg/v1"
	"github.com/google/go-containerregistry/pkg/v1/empty"
	"github.com/google/go-containerregistry/pkg/v1/mutate"
	ociv1tarball "github.com/google/go-containerregistry/pkg/v1/tarball"
	"pgregory.net/rapid"

	"verif.local/harness/h"
	"verif.local/harness/lm"
)

func gz(bs []byte) []byte {
	var buf bytes.Buffer
	w := gzip.NewWriter(&buf)
	_, err := w.Write(bs)
	h.Must(err)
	h.Must(w.Close())
	return buf.Bytes()
}

func gunzipMaybe(bs []byte) ([]byte, error) {
	if len(bs) < 2 || bs[0] != 0x1f || bs[1] != 0x8b {
		return bs, nil
	}
	r, err := gzip.NewReader(bytes.NewReader(bs))
	if err != nil {
		return nil, err
	}
	return io.ReadAll(r)
}

func sum(bs []byte) string {
	s := sha256.Sum256(bs)
	return "sha256:" + hex.EncodeToString(s[:])
}

// image is a parsed image file.
type image struct {
	tags      []string
	config    map[string]interface{}
	rawConfig []byte
	layers    [][]byte // uncompressed
}

// parseImage reads a `docker save` style file without the library that wrote it.
func parseImage(bs []byte) (*image, error) {
	files := map[string][]byte{}
	tr := tar.NewReader(bytes.NewReader(bs))
	for {
		hdr, err := tr.Next()
		if err == io.EOF {
			break
		}
		if err != nil {
			return nil, err
		}
		body, err := io.ReadAll(tr)
		if err != nil {
			return nil, err
		}
		if old, ok := files[hdr.Name]; ok && !bytes.Equal(old, body) {
			return nil, fmt.Errorf("%s is in the file twice with different contents", hdr.Name)
		}
		files[hdr.Name] = body
	}
	var man []struct {
		Config   string
		RepoTags []string
		Layers   []string
	}
	if err := json.Unmarshal(files["manifest.json"], &man); err != nil {
		return nil, fmt.Errorf("manifest.json: %w", err)
	}
	if len(man) != 1 {
		return nil, fmt.Errorf("manifest.json lists %d images", len(man))
	}
	img := &image{tags: man[0].RepoTags, rawConfig: files[man[0].Config]}
	if err := json.Unmarshal(img.rawConfig, &img.config); err != nil {
		return nil, fmt.Errorf("config: %w", err)
	}
	for _, l := range man[0].Layers {
		body, ok := files[l]
		if !ok {
			return nil, fmt.Errorf("no file for layer %s", l)
		}
		u, err := gunzipMaybe(body)
		if err != nil {
			return nil, fmt.Errorf("layer %s: %w", l, err)
		}
		img.layers = append(img.layers, u)
	}
	return img, nil
}

func genLayerBytes(t *rapid.T) []byte {
	ls, _ := lm.GenStack(t, lm.StackOpts{Whiteouts: true, Symlinks: true, MaxLayers: 1, MaxFiles: 4})
	if len(ls) == 0 {
		return lm.Layer{}.Tar()
	}
	return ls[0].Tar()
}

func genConfig(t *rapid.T) ociv1.Config {
	var cfg ociv1.Config
	if rapid.Bool().Draw(t, "bEnv") {
		cfg.Env = []string{"PATH=/bin", "A=" + h.Pick(t, "a", "1", "", "b", "c=d"), h.Pick(t, "b", "B=", "B=2", "PATH=/bin", "D=a=b")}
	}
	if rapid.Bool().Draw(t, "bEP") {
		cfg.Entrypoint = []string{"/base/entry", "x"}
	}
	if rapid.Bool().Draw(t, "bCmd") {
		cfg.Cmd = []string{"base", "cmd"}
	}
	if rapid.Bool().Draw(t, "bWD") {
		cfg.WorkingDir = "/base/wd"
	}
	if rapid.Bool().Draw(t, "bOther") {
		cfg.User = "bob:staff"
		cfg.Labels = map[string]string{"l1": "v", "l2": ""}
		cfg.ExposedPorts = map[string]struct{}{"80/tcp": {}, "53/udp": {}}
		cfg.Volumes = map[string]struct{}{"/data": {}}
		cfg.StopSignal = "SIGINT"
		cfg.Hostname = "hn"
		cfg.Healthcheck = &ociv1.HealthConfig{Test: []string{"CMD", "x"}, Interval: time.Second}
	}
	return cfg
}

type baseImage struct {
	file   []byte
	layers [][]byte
	cfg    *ociv1.ConfigFile
}

func genBase(t *rapid.T, dir string) *baseImage {
	var b baseImage
	img := ociv1.Image(empty.Image)
	h.Repeat(t, "baselayers", 0, 3, func(t *rapid.T) {
		bs := genLayerBytes(t)
		opener := func() (io.ReadCloser, error) { return io.NopCloser(bytes.NewReader(bs)), nil }
		l, err := ociv1tarball.LayerFromOpener(opener)
		h.Must(err)
		hist := ociv1.History{Author: "x", CreatedBy: fmt.Sprintf("step %d", len(b.layers))}
		img, err = mutate.Append(img, mutate.Addendum{Layer: l, History: hist})
		h.Must(err)
		b.layers = append(b.layers, bs)
	})
	cf, err := img.ConfigFile()
	h.Must(err)
	cf = cf.DeepCopy()
	cf.Config = genConfig(t)
	cf.OS = h.Pick(t, "os", "linux", "windows")
	cf.Architecture = h.Pick(t, "arch", "amd64", "arm64", "")
	cf.Author = h.Pick(t, "author", "", "me")
	if rapid.Bool().Draw(t, "created") {
		cf.Created = ociv1.Time{Time: time.Unix(1600000000, 0).UTC()}
	}
	img, err = mutate.ConfigFile(img, cf)
	h.Must(err)
	b.cfg = cf
	f, err := os.CreateTemp(dir, "base.")
	h.Must(err)
	h.Must(ociv1tarball.Write(nil, img, f))
	h.Must(f.Close())
	b.file, err = os.ReadFile(f.Name())
	h.Must(err)
	h.Must(os.Remove(f.Name()))
	return &b
}

func spell(useShort bool, short, long, val string) []string {
	if useShort {
		return []string{short, val}
	}
	return []string{long + "=" + val}
}

func strs(v interface{}) []string {
	l, _ := v.([]interface{})
	var ret []string
	for _, x := range l {
		ret = append(ret, fmt.Sprint(x))
	}
	return ret
}

// feed makes a named pipe and writes bs to it once.
func (s *sandbox) feed(rel string, bs []byte) (string, func()) {
	p := s.path(rel)
	h.Must(syscall.Mkfifo(p, 0o644))
	s.own(p)
	h.Must(os.Chmod(p, 0o644))
	done := make(chan struct{})
	go func() {
		defer close(done)
		f, err := os.OpenFile(p, os.O_WRONLY, 0)
		if err != nil {
			return
		}
		_, _ = f.Write(bs)
		_ = f.Close()
	}()
	return p, func() {
		// let the writer go if nobody has read from the pipe
		if f, err := os.OpenFile(p, os.O_RDONLY|syscall.O_NONBLOCK, 0); err == nil {
			select {
			case <-done:
			case <-time.After(100 * time.Millisecond):
			}
			_ = f.Close()
		}
		<-done
	}
}

func TestC10(t *testing.T) {
	lm.Huge = 3
	defer func() { lm.Huge = 0 }()
	p := h.Start(t, "C10", "at least two layers in all (base and given), or a config flag, or a pipe among the inputs")
	p.Run("build", 400, 4000, func(c *h.C) {
		s := newSandbox()
		defer s.done()
		var descr []string
		args := []string{"image", "build"}
		var cleanups []func()
		defer func() {
			for _, f := range cleanups {
				f()
			}
		}()
		pipes := 0
		var base *baseImage
		put := func(t *rapid.T, name string, bs []byte, pipe bool) string {
			if pipe {
				pipes++
				p, done := s.feed(name, bs)
				cleanups = append(cleanups, done)
				return p
			}
			return s.write(name, bs, 0o644)
		}
		var baseArgs []string
		var baseBytes []byte
		if h.Weighted(c.T, "base", 1, 2) == 1 {
			base = genBase(c.T, s.dir)
			baseBytes = base.file
			descr = append(descr, fmt.Sprintf("base %d layers cfg %+v", len(base.layers), base.cfg.Config))
		}
		var layers [][]byte
		var layerFiles [][]byte
		h.Repeat(c.T, "layers", 1, h.Pick(c.T, "max", 4, 4, 4, 4, 4, 4, 4, 4, 4, 14), func(t *rapid.T) {
			bs := genLayerBytes(t)
			if len(layers) > 0 && h.OneIn(t, "dup", 5) {
				bs = layers[h.Int(t, "dupof", 0, len(layers)-1)] // the same layer once more
			}
			layers = append(layers, bs)
			if rapid.Bool().Draw(t, "gz") {
				bs = gz(bs)
			}
			layerFiles = append(layerFiles, bs)
		})
		// config flags
		wantEnv, wantEP, wantCmd, wantWD := []string(nil), []string(nil), []string(nil), ""
		if base != nil {
			wantEnv, wantEP, wantCmd, wantWD = base.cfg.Config.Env, base.cfg.Config.Entrypoint, base.cfg.Config.Cmd, base.cfg.Config.WorkingDir
		}
		wantEnv = append([]string{}, wantEnv...)
		var flags []string
		if h.OneIn(c.T, "E", 3) {
			flags = append(flags, h.Pick(c.T, "Espell", "-E", "--config.Env.clear"))
			wantEnv = nil
		}
		h.Repeat(c.T, "e", 0, 3, func(t *rapid.T) {
			kv := h.Pick(t, "kv", "A=1", "B=", "C=x y,z", "D=a=b", "PATH=/x:$PATH", "EMPTY", "Q=\"q\"")
			flags = append(flags, spell(rapid.Bool().Draw(t, "short"), "-e", "--config.Env.append", kv)...)
			wantEnv = append(wantEnv, kv)
		})
		var ep []string
		h.Repeat(c.T, "ep", 0, 2, func(t *rapid.T) {
			ep = append(ep, h.Pick(t, "epv", "/bin/sh", "-c", "a b", "x,y", ""))
			flags = append(flags, "--config.Entrypoint="+ep[len(ep)-1])
		})
		if ep != nil {
			wantEP = ep
		}
		var cm []string
		h.Repeat(c.T, "cmd", 0, 3, func(t *rapid.T) {
			cm = append(cm, h.Pick(t, "cmdv", "run", "--flag=x", "a b", "x,y", "", "é"))
			flags = append(flags, spell(rapid.Bool().Draw(t, "short"), "-c", "--config.Cmd", cm[len(cm)-1])...)
		})
		if cm != nil {
			wantCmd = cm
		}
		if h.OneIn(c.T, "wd", 3) {
			wantWD = h.Pick(c.T, "wdv", "/w", "/w d", "/", "/w/", "/a/../b", "/a//b", "rel/dir", ".")
			flags = append(flags, spell(rapid.Bool().Draw(c.T, "short"), "-w", "--config.WorkingDir", wantWD)...)
		}
		var wantTags []string
		if h.OneIn(c.T, "tag", 3) {
			tag := h.Pick(c.T, "tagv", "example.com/a/b:c", "example.com/ab:latest", "localhost:5000/xy:v1")
			flags = append(flags, spell(rapid.Bool().Draw(c.T, "short"), "-t", "--tag", tag)...)
			wantTags = []string{tag}
		}
		// what is a pipe
		pipeBase := base != nil && h.OneIn(c.T, "pipebase", 3)
		if base != nil {
			baseArgs = []string{"--base=" + put(c.T, "base", baseBytes, pipeBase)}
		}
		var layerArgs []string
		for i, bs := range layerFiles {
			layerArgs = append(layerArgs, put(c.T, fmt.Sprintf("layer%d", i), bs, h.OneIn(c.T, "pipe", 3)))
		}
		if i := h.Int(c.T, "again", 0, len(layerArgs)-1); h.OneIn(c.T, "samefile", 4) {
			// the same file once more
			if fi, err := os.Stat(layerArgs[i]); err == nil && fi.Mode().IsRegular() {
				at := h.Int(c.T, "againat", 0, len(layerArgs))
				a, l, f := layerArgs[i], layers[i], layerFiles[i]
				layerArgs = append(layerArgs[:at:at], append([]string{a}, layerArgs[at:]...)...)
				layers = append(layers[:at:at], append([][]byte{l}, layers[at:]...)...)
				layerFiles = append(layerFiles[:at:at], append([][]byte{f}, layerFiles[at:]...)...)
			}
		}
		descr = append(descr, fmt.Sprintf("%d layers, %d pipes, flags %q", len(layers), pipes, flags))
		d := strings.Join(descr, "; ")
		c.Journal(d)
		args = append(append(append(args, baseArgs...), flags...), layerArgs...)
		o := s.run(runOpts{env: []string{"TZ=" + h.Pick(c.T, "tz", "UTC", "Asia/Tokyo")}}, args...)
		if o.rc != 0 {
			c.Fatalf("image build failed: %s\n%s", o, d)
		}
		img, err := parseImage(o.stdout)
		if err != nil {
			c.Fatalf("unreadable image: %v\n%s", err, d)
		}
		var want [][]byte
		if base != nil {
			want = append(want, base.layers...)
		}
		want = append(want, layers...)
		if len(img.layers) != len(want) {
			c.Fatalf("the image has %d layers, want %d\n%s", len(img.layers), len(want), d)
		}
		rootfs, _ := img.config["rootfs"].(map[string]interface{})
		ids := strs(rootfs["diff_ids"])
		if len(ids) != len(want) {
			c.Fatalf("the config has %d diff_ids, want %d\n%s", len(ids), len(want), d)
		}
		for i := range want {
			if !bytes.Equal(img.layers[i], want[i]) {
				c.Fatalf("layer %d is not the one given\n%s", i, d)
			}
			if ids[i] != sum(want[i]) {
				c.Fatalf("diff_id %d is %s, want %s\n%s", i, ids[i], sum(want[i]), d)
			}
		}
		if !reflect.DeepEqual(img.tags, wantTags) && len(img.tags)+len(wantTags) > 0 {
			c.Fatalf("tags %q, want %q\n%s", img.tags, wantTags, d)
		}
		cfg, _ := img.config["config"].(map[string]interface{})
		for _, x := range []struct {
			name string
			want []string
		}{{"Env", wantEnv}, {"Entrypoint", wantEP}, {"Cmd", wantCmd}} {
			if got := strs(cfg[x.name]); fmt.Sprintf("%q", got) != fmt.Sprintf("%q", x.want) {
				c.Fatalf("config.%s is %q, want %q\n%s", x.name, got, x.want, d)
			}
		}
		if got, _ := cfg["WorkingDir"].(string); got != wantWD {
			c.Fatalf("config.WorkingDir is %q, want %q\n%s", got, wantWD, d)
		}
		// everything else of the base stays
		if base != nil {
			bs, err := json.Marshal(base.cfg)
			h.Must(err)
			var b map[string]interface{}
			h.Must(json.Unmarshal(bs, &b))
			for _, k := range []string{"os", "architecture", "author", "created"} {
				if !reflect.DeepEqual(img.config[k], b[k]) {
					c.Fatalf("%s is %v, the base has %v\n%s", k, img.config[k], b[k], d)
				}
			}
			bc, _ := b["config"].(map[string]interface{})
			for _, k := range []string{"User", "Labels", "ExposedPorts", "Volumes", "StopSignal", "Hostname", "Healthcheck"} {
				if !reflect.DeepEqual(cfg[k], bc[k]) {
					c.Fatalf("config.%s is %v, the base has %v\n%s", k, cfg[k], bc[k], d)
				}
			}
			bh, _ := b["history"].([]interface{})
			gh, _ := img.config["history"].([]interface{})
			if len(gh) != len(want) {
				c.Fatalf("%d history entries for %d layers\n%s", len(gh), len(want), d)
			}
			for i := range bh {
				if !reflect.DeepEqual(gh[i], bh[i]) {
					c.Fatalf("history entry %d of the base changed from %v to %v\n%s", i, bh[i], gh[i], d)
				}
			}
		}
		// again from regular files: the same bytes
		args2 := []string{"image", "build"}
		if base != nil {
			args2 = append(args2, "--base="+s.write("again-base", baseBytes, 0o644))
		}
		args2 = append(args2, flags...)
		for i, bs := range layerFiles {
			args2 = append(args2, s.write(fmt.Sprintf("again%d", i), bs, 0o644))
		}
		o2 := s.run(runOpts{env: []string{"TZ=America/New_York"}}, args2...)
		if o2.rc != 0 || !bytes.Equal(o.stdout, o2.stdout) {
			c.Fatalf("building the same image again gives something else (%d pipes the first time): %s\n%s", pipes, o2, d)
		}
		// and the result can be a base itself
		o3 := s.run(runOpts{}, "image", "build", "--base="+s.write("image", o.stdout, 0o644), s.write("more", layers[0], 0o644))
		img3, err := parseImage(o3.stdout)
		if o3.rc != 0 || err != nil || len(img3.layers) != len(want)+1 || !bytes.Equal(img3.layers[len(want)], layers[0]) || !reflect.DeepEqual(img3.config["config"], img.config["config"]) {
			c.Fatalf("the image cannot be used as a base: %s, %v\n%s", o3, err, d)
		}
		c.LabelIf(base != nil, "base")
		c.LabelIf(pipes > 0, "pipes")
		c.LabelIf(len(flags) > 0, "flags")
		if len(want) >= 2 || len(flags) > 0 || pipes > 0 {
			c.Nontrivial(d)
		}
	})
	p.Run("squash", 200, 2000, func(c *h.C) {
		s := newSandbox()
		defer s.done()
		stack, _ := lm.GenStack(c.T, lm.StackOpts{Whiteouts: true, MaxLayers: 4, MaxFiles: 5})
		for len(stack) < 2 {
			stack = append(stack, lm.Layer{})
		}
		var plain, mixed []string
		var cleanups []func()
		defer func() {
			for _, f := range cleanups {
				f()
			}
		}()
		var how []string
		for i, l := range stack {
			bs := l.Tar()
			plain = append(plain, s.write(fmt.Sprintf("p%d", i), bs, 0o644))
			k := "plain"
			if rapid.Bool().Draw(c.T, "gz") {
				bs = gz(bs)
				k = "gz"
			}
			if rapid.Bool().Draw(c.T, "pipe") {
				p, done := s.feed(fmt.Sprintf("f%d", i), bs)
				cleanups = append(cleanups, done)
				mixed = append(mixed, p)
				k += "-pipe"
			} else {
				mixed = append(mixed, s.write(fmt.Sprintf("m%d", i), bs, 0o644))
			}
			how = append(how, k)
		}
		d := fmt.Sprintf("%v %s", how, lm.Describe(stack))
		c.Journal(d)
		o1 := s.run(runOpts{}, append([]string{"layer", "squash"}, plain...)...)
		o2 := s.run(runOpts{}, append([]string{"layer", "squash"}, mixed...)...)
		if o1.crashed() || o2.crashed() || o1.rc != o2.rc || !bytes.Equal(o1.stdout, o2.stdout) {
			c.Fatalf("plain files: %s\n%v: %s\n%s", o1, how, o2, d)
		}
		if o1.rc != 0 {
			return
		}
		got, err := lm.Parse(o1.stdout)
		if err != nil {
			c.Fatalf("unreadable layer: %v\n%s", err, d)
		}
		a, errA := lm.Flatten(stack...)
		b, errB := lm.Flatten(got)
		if errA != nil {
			return
		}
		if errB != nil {
			c.Fatalf("result cannot be applied: %v\n%s", errB, d)
		}
		if diff := lm.DiffLinks(a, b, lm.DiffOpts{}); diff != "" {
			c.Fatalf("%s\n%s", diff, d)
		}
		c.Nontrivial(d)
	})
}
