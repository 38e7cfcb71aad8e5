// c20 drives the DeathStarBench social network services, wired to the in-memory backends, with random sequential and
// concurrent requests and judges every answer and the state left behind against a reference model.
package main

import (
	"context"
	"crypto/hmac"
	"crypto/sha256"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"io"
	"log"
	"math/rand"
	"os"
	"reflect"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"verif/harness/hx"

	sn "github.com/blueprint-uservices/blueprint/examples/dsb_sn/workflow/socialnetwork"
	"github.com/blueprint-uservices/blueprint/runtime/core/backend"
	"github.com/blueprint-uservices/blueprint/runtime/plugins/simplecache"
	"github.com/blueprint-uservices/blueprint/runtime/plugins/simplenosqldb"
	"go.mongodb.org/mongo-driver/bson"
)

var ctx = context.Background()
var h *hx.H

func must[T any](v T, err error) T {
	if err != nil {
		panic(fmt.Sprintf("setup: %v", err))
	}
	return v
}

// lossy is a cache that may forget an entry at any time, as memcached does.
type lossy struct {
	backend.Cache
	mu sync.Mutex
	r  *rand.Rand
	p  float64
}

func (c *lossy) flip() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.r.Float64() < c.p
}

func (c *lossy) Get(ctx context.Context, key string, val interface{}) (bool, error) {
	if c.flip() {
		c.Cache.Delete(ctx, key)
	}
	return c.Cache.Get(ctx, key, val)
}

func (c *lossy) Mget(ctx context.Context, keys []string, vals []interface{}) error {
	for _, k := range keys {
		if c.flip() {
			c.Cache.Delete(ctx, k)
		}
	}
	return c.Cache.Mget(ctx, keys, vals)
}

func newCache(r *rand.Rand, p float64) backend.Cache {
	c := must(simplecache.NewSimpleCache(ctx))
	if p == 0 {
		return c
	}
	return &lossy{Cache: c, r: rand.New(rand.NewSource(r.Int63())), p: p}
}

// posDB adds to the in-memory database what it does not support of MongoDB and the user timeline needs: $push with
// $each and $position, and $slice projections.
type posDB struct{ backend.NoSQLDatabase }

type posColl struct {
	backend.NoSQLCollection
	mu *sync.Mutex
}

var posMu sync.Mutex

func (d posDB) GetCollection(ctx context.Context, db, coll string) (backend.NoSQLCollection, error) {
	c, err := d.NoSQLDatabase.GetCollection(ctx, db, coll)
	if err != nil {
		return nil, err
	}
	return &posColl{c, &posMu}, nil
}

func get(d bson.D, k string) (any, bool) {
	for _, e := range d {
		if e.Key == k {
			return e.Value, true
		}
	}
	return nil, false
}

func asInt(v any) (int, bool) {
	switch n := v.(type) {
	case int32:
		return int(n), true
	case int64:
		return int(n), true
	case int:
		return n, true
	case float64:
		return int(n), true
	}
	return 0, false
}

func (c *posColl) push(ctx context.Context, filter, update bson.D, many bool) (int, bool, error) {
	v, ok := get(update, "$push")
	spec, ok2 := v.(bson.D)
	if !ok || !ok2 || len(update) != 1 || len(spec) != 1 {
		return 0, false, nil
	}
	mods, ok := spec[0].Value.(bson.D)
	if !ok {
		return 0, false, nil
	}
	each, ok := get(mods, "$each")
	items, ok2 := each.(bson.A)
	if !ok || !ok2 {
		return 0, false, nil
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	cur, err := c.NoSQLCollection.FindMany(ctx, filter)
	if err != nil {
		return 0, true, err
	}
	var docs []bson.D
	if err := cur.All(ctx, &docs); err != nil {
		return 0, true, err
	}
	n := 0
	for _, d := range docs {
		var next bson.D
		done := false
		for _, e := range d {
			if e.Key == spec[0].Key {
				old, ok := e.Value.(bson.A)
				if !ok {
					return n, true, fmt.Errorf("the field %q is not an array", e.Key)
				}
				pos := len(old)
				if p, ok := get(mods, "$position"); ok {
					if i, ok := asInt(p); ok && i >= 0 && i < pos {
						pos = i
					}
				}
				l := append(bson.A{}, old[:pos]...)
				l = append(l, items...)
				l = append(l, old[pos:]...)
				if s, ok := get(mods, "$slice"); ok {
					if i, ok := asInt(s); ok && i >= 0 && i < len(l) {
						l = l[:i]
					} else if ok && i < 0 && -i < len(l) {
						l = l[len(l)+i:]
					}
				}
				e.Value, done = l, true
			}
			next = append(next, e)
		}
		if !done {
			next = append(next, bson.E{Key: spec[0].Key, Value: items})
		}
		id, _ := get(d, "_id")
		if _, err := c.NoSQLCollection.ReplaceOne(ctx, bson.D{{Key: "_id", Value: id}}, next); err != nil {
			return n, true, err
		}
		n++
		if !many {
			break
		}
	}
	return n, true, nil
}

func (c *posColl) UpdateOne(ctx context.Context, filter, update bson.D) (int, error) {
	if n, ok, err := c.push(ctx, filter, update, false); ok {
		return n, err
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.NoSQLCollection.UpdateOne(ctx, filter, update)
}

func (c *posColl) UpdateMany(ctx context.Context, filter, update bson.D) (int, error) {
	if n, ok, err := c.push(ctx, filter, update, true); ok {
		return n, err
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.NoSQLCollection.UpdateMany(ctx, filter, update)
}

func (c *posColl) FindOne(ctx context.Context, filter bson.D, projection ...bson.D) (backend.NoSQLCursor, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	cur, err := c.NoSQLCollection.FindOne(ctx, filter, projection...)
	if err != nil || len(projection) == 0 {
		return cur, err
	}
	return &posCursor{cur, projection[0]}, nil
}

func (c *posColl) FindMany(ctx context.Context, filter bson.D, projection ...bson.D) (backend.NoSQLCursor, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.NoSQLCollection.FindMany(ctx, filter, projection...)
}

type posCursor struct {
	backend.NoSQLCursor
	projection bson.D
}

func (c *posCursor) One(ctx context.Context, obj interface{}) (bool, error) {
	var d bson.D
	ok, err := c.NoSQLCursor.One(ctx, &d)
	if !ok || err != nil {
		return ok, err
	}
	for _, p := range c.projection {
		m, _ := p.Value.(bson.D)
		s, ok := get(m, "$slice")
		if !ok {
			continue
		}
		skip, limit := 0, 0
		if l, ok := s.(bson.A); ok && len(l) == 2 {
			skip, _ = asInt(l[0])
			limit, _ = asInt(l[1])
		} else if n, ok := asInt(s); ok && n >= 0 {
			limit = n
		} else {
			continue
		}
		for i := range d {
			if l, ok := d[i].Value.(bson.A); ok && d[i].Key == p.Key {
				d[i].Value = l[min(skip, len(l)):min(skip+limit, len(l))]
			}
		}
	}
	b, err := bson.Marshal(d)
	if err != nil {
		return false, err
	}
	return true, bson.Unmarshal(b, obj)
}

// network is one instance of the application, with its model.
type network struct {
	urlDB    backend.NoSQLDatabase
	urls     sn.UrlShortenService
	mentions sn.UserMentionService
	storage  sn.PostStorageService
	media    sn.MediaService
	ids      sn.UniqueIdService
	userID   sn.UserIDService
	graph    sn.SocialGraphService
	home     sn.HomeTimelineService
	users    sn.UserService
	timeline sn.UserTimelineService
	compose  sn.ComposePostService
	api      sn.Wrk2APIService

	mu      sync.Mutex
	log     []string
	byName  map[string]*member
	byID    map[int64]*member
	members []*member
	posts   map[int64]*post
	order   []int64 // post IDs in the order composed
	given   map[int64]bool
}

type member struct {
	id                   int64
	name, pwd            string
	followers, followees map[int64]bool
	timeline             []int64 // newest first
	home                 []int64 // oldest first
}

type post struct {
	sn.Post
	text     string // as written
	from, to int64
	mentions []string
}

func newNetwork(r *rand.Rand, p float64) *network {
	n := &network{byName: map[string]*member{}, byID: map[int64]*member{}, posts: map[int64]*post{}, given: map[int64]bool{}}
	db := func() backend.NoSQLDatabase { return must(simplenosqldb.NewSimpleNoSQLDB(ctx)) }
	n.urlDB = db()
	userCache, userDB := newCache(r, p), db()
	n.urls = must(sn.NewUrlShortenServiceImpl(ctx, n.urlDB))
	n.mentions = must(sn.NewUserMentionServiceImpl(ctx, userCache, userDB))
	n.storage = must(sn.NewPostStorageServiceImpl(ctx, newCache(r, p), db()))
	n.media = must(sn.NewMediaServiceImpl(ctx))
	n.ids = must(sn.NewUniqueIdServiceImpl(ctx))
	n.userID = must(sn.NewUserIDServiceImpl(ctx, userCache, userDB))
	n.graph = must(sn.NewSocialGraphServiceImpl(ctx, newCache(r, p), db(), n.userID))
	// home timelines are only kept in the cache
	n.home = must(sn.NewHomeTimelineServiceImpl(ctx, newCache(r, 0), n.storage, n.graph))
	n.users = must(sn.NewUserServiceImpl(ctx, userCache, userDB, n.graph, "secret"))
	text := must(sn.NewTextServiceImpl(ctx, n.urls, n.mentions))
	n.timeline = must(sn.NewUserTimelineServiceImpl(ctx, newCache(r, p), posDB{db()}, n.storage))
	n.compose = must(sn.NewComposePostServiceImpl(ctx, n.storage, n.timeline, n.users, n.ids, n.media, text, n.home))
	n.api = must(sn.NewWrk2APIServiceImpl(ctx, n.users, n.compose, n.timeline, n.home, n.graph))
	return n
}

func (n *network) did(f string, a ...any) {
	n.mu.Lock()
	n.log = append(n.log, fmt.Sprintf(f, a...))
	n.mu.Unlock()
}

func (n *network) bad(key, f string, a ...any) {
	n.mu.Lock()
	l := append([]string{}, n.log...)
	n.mu.Unlock()
	if len(l) > 60 {
		l = l[len(l)-60:]
	}
	h.Violate(key, fmt.Sprintf(f, a...), l)
}

func (n *network) add(name, pwd string, id int64) *member {
	m := &member{id: id, name: name, pwd: pwd, followers: map[int64]bool{}, followees: map[int64]bool{}}
	n.byName[name], n.byID[id] = m, m
	n.members = append(n.members, m)
	return m
}

func newID(r *rand.Rand) int64 {
	if r.Intn(2) == 0 {
		return int64(1 + r.Intn(1000))
	}
	return r.Int63()
}

var names = []string{"bob", "bobby", "bob-2", "alice", "Alice", "_x", "a", "eve", "e_v_e", "42", "zoe"}

func (n *network) someone(r *rand.Rand) *member { return n.members[r.Intn(len(n.members))] }

func (n *network) register(r *rand.Rand) {
	name := names[r.Intn(len(names))]
	if r.Intn(3) == 0 {
		name = fmt.Sprint("user", r.Intn(1000))
	}
	pwd := fmt.Sprint("pw", r.Intn(1000))
	id := newID(r)
	if len(n.members) > 0 && r.Intn(6) == 0 {
		id = n.someone(r).id
	}
	generated := r.Intn(5) == 0
	first, last, reqID := "F"+name, "L", r.Int63()
	var err error
	incomplete := false
	how := ""
	switch {
	case generated:
		how = "RegisterUser"
		err = n.users.RegisterUser(ctx, reqID, first, last, name, pwd)
	case r.Intn(2) == 0:
		how = "RegisterUserWithId"
		err = n.users.RegisterUserWithId(ctx, reqID, first, last, name, pwd, id)
	default:
		how = "Register"
		if r.Intn(8) == 0 {
			incomplete = true
			switch r.Intn(4) {
			case 0:
				first = ""
			case 1:
				last = ""
			case 2:
				pwd = ""
			case 3:
				name = ""
			}
		}
		err = n.api.Register(ctx, first, last, name, pwd, id)
	}
	n.did("%s(%q, %q, %q, %q, %d) = %v", how, first, last, name, pwd, id, err)
	taken := n.byName[name] != nil || !generated && n.byID[id] != nil || incomplete
	if taken != (err != nil) {
		n.bad("register/result", "%s(%q, %d): %v, but taken or incomplete: %v", how, name, id, err, taken)
	}
	if err != nil || taken {
		return
	}
	if generated {
		got, err := n.userID.GetUserId(ctx, reqID, name)
		if err != nil || got <= 0 || n.byID[got] != nil {
			n.bad("register/generated-id", "user %q was registered with id %d, %v (taken: %v)", name, got, err, n.byID[got] != nil)
			return
		}
		id = got
	}
	n.add(name, pwd, id)
	h.Observe("registered", 1)
}

func (n *network) login(r *rand.Rand) {
	name, pwd, ok := "nobody", "x", false
	if r.Intn(6) > 0 {
		m := n.someone(r)
		name, pwd, ok = m.name, m.pwd, true
		if r.Intn(3) == 0 {
			pwd, ok = pwd+"0", false
			if r.Intn(3) == 0 {
				pwd = ""
			} else if o := n.someone(r); r.Intn(2) == 0 && o.pwd != m.pwd {
				pwd = o.pwd
			}
		}
	}
	tok, err := n.users.Login(ctx, r.Int63(), name, pwd)
	n.did("Login(%q, %q) = %v", name, pwd, err)
	h.Observe("logins", 1)
	if ok != (err == nil) || ok == (tok == "") {
		n.bad("login/result", "Login(%q, %q) = %q, %v; valid: %v", name, pwd, tok, err, ok)
		return
	}
	if !ok {
		return
	}
	part := strings.Split(tok, ".")
	if len(part) != 3 {
		n.bad("login/token", "malformed token %q", tok)
		return
	}
	mac := hmac.New(sha256.New, []byte("secret"))
	mac.Write([]byte(part[0] + "." + part[1]))
	if base64.RawURLEncoding.EncodeToString(mac.Sum(nil)) != part[2] {
		n.bad("login/token", "token %q is not signed with the secret", tok)
	}
	b, _ := base64.RawURLEncoding.DecodeString(part[1])
	var claims struct {
		Username, UserID string
		Exp              int64 `json:"exp"`
	}
	json.Unmarshal(b, &claims)
	if claims.Username != name || claims.UserID != strconv.FormatInt(n.byName[name].id, 10) || claims.Exp < time.Now().Unix() {
		n.bad("login/token", "login of %q (%d) gave a token with %s", name, n.byName[name].id, b)
	}
}

func (n *network) follow(r *rand.Rand) {
	a, b := n.someone(r), n.someone(r)
	if a == b {
		return
	}
	un := r.Intn(3) == 0
	aid, bid, aname, bname, known := a.id, b.id, a.name, b.name, true
	if r.Intn(10) == 0 {
		known = false
		if r.Intn(2) == 0 {
			aid, aname = 1000+int64(r.Intn(1000)), "nobody"
		} else {
			bid, bname = 1000+int64(r.Intn(1000)), "nobody"
		}
	}
	var err error
	how := ""
	switch r.Intn(4) {
	case 0:
		how = "graph by id"
		if un {
			err = n.graph.Unfollow(ctx, 1, aid, bid)
		} else {
			err = n.graph.Follow(ctx, 1, aid, bid)
		}
	case 1:
		how = "graph by name"
		if un {
			err = n.graph.UnfollowWithUsername(ctx, 1, aname, bname)
		} else {
			err = n.graph.FollowWithUsername(ctx, 1, aname, bname)
		}
	case 2:
		how = "api by id"
		f := n.api.Follow
		if un {
			f = n.api.Unfollow
		}
		err = f(ctx, []string{"", aname, "zzz"}[r.Intn(3)], []string{"", bname, "zzz"}[r.Intn(3)], aid, bid)
	case 3:
		how = "api by name"
		f := n.api.Follow
		if un {
			f = n.api.Unfollow
		}
		if r.Intn(10) == 0 {
			aname, known = "", false
		}
		err = f(ctx, aname, bname, 0, 0)
	}
	n.did("%s: unfollow %v: %d %d %q %q = %v", how, un, aid, bid, aname, bname, err)
	if known && err != nil || !known && err == nil && !un {
		n.bad("follow/result", "%s: %q (%d) to %q (%d), unfollow %v: %v", how, aname, aid, bname, bid, un, err)
	}
	h.Observe("follows", 1)
	if known {
		if un {
			delete(a.followees, b.id)
			delete(b.followers, a.id)
		} else {
			a.followees[b.id] = true
			b.followers[a.id] = true
		}
	}
}

func sorted(s []int64) []int64 {
	s = append([]int64{}, s...)
	sort.Slice(s, func(i, j int) bool { return s[i] < s[j] })
	return s
}

func keys(m map[int64]bool) []int64 {
	l := []int64{}
	for k := range m {
		l = append(l, k)
	}
	return sorted(l)
}

func (n *network) readGraph(m *member) {
	got, err := n.graph.GetFollowers(ctx, 1, m.id)
	if err != nil || !reflect.DeepEqual(sorted(got), keys(m.followers)) {
		n.bad("graph/followers", "followers of %q (%d): %v, %v instead of %v", m.name, m.id, got, err, keys(m.followers))
	}
	got, err = n.graph.GetFollowees(ctx, 1, m.id)
	if err != nil || !reflect.DeepEqual(sorted(got), keys(m.followees)) {
		n.bad("graph/followees", "followees of %q (%d): %v, %v instead of %v", m.name, m.id, got, err, keys(m.followees))
	}
	h.Observe("lists_compared", 2)
}

var mentionRE = regexp.MustCompile(`@[a-zA-Z0-9-_]+`)
var urlRE = regexp.MustCompile(`(http://|https://)([a-zA-Z0-9_!~*'().&=+$%-]+)`)

var words = []string{"hello", "world", "http://a.b", "http://a.b.c", "http://a", "https://x.org", "http://a.b", "see", "$1", "${x}", `"q"`, "é", "@", "a@", "http://", "\n"}

func (n *network) text(r *rand.Rand) string {
	var w []string
	for i := 0; i < 1+r.Intn(8); i++ {
		switch r.Intn(3) {
		case 0:
			w = append(w, words[r.Intn(len(words))])
		case 1:
			if r.Intn(12) == 0 {
				w = append(w, "@nobody"+fmt.Sprint(r.Intn(3)))
			} else {
				w = append(w, "@"+n.someone(r).name)
			}
		default:
			w = append(w, fmt.Sprint("w", r.Intn(100)))
		}
	}
	return strings.Join(w, []string{" ", ", ", " - "}[r.Intn(3)])
}

func (n *network) write(r *rand.Rand, author *member) (p *post, ok bool) {
	text := n.text(r)
	var mt []string
	var mi []int64
	for i := 0; i < r.Intn(4); i++ {
		mt = append(mt, []string{"png", "jpg", ""}[r.Intn(3)])
		mi = append(mi, r.Int63())
	}
	wrong := r.Intn(15) == 0
	if wrong {
		mt = append(mt, "gif")
	}
	kind := int64(r.Intn(4))
	p = &post{text: text, from: time.Now().UnixMilli()}
	p.Creator = sn.Creator{UserID: author.id, Username: author.name}
	p.PostType = kind
	unknown := false
	for _, s := range mentionRE.FindAllString(text, -1) {
		if m := n.byName[s[1:]]; m != nil {
			p.mentions = append(p.mentions, m.name)
		} else {
			unknown = true
		}
	}
	var id int64
	var ms []int64
	var err error
	if r.Intn(2) == 0 {
		id, ms, err = n.api.ComposePost(ctx, author.id, author.name, kind, text, mt, mi)
	} else {
		p.ReqID = 1 + r.Int63n(1<<60)
		id, ms, err = n.compose.ComposePost(ctx, p.ReqID, author.name, author.id, text, mi, mt, kind)
	}
	p.to = time.Now().UnixMilli()
	n.did("ComposePost(%d, %q, %q, %v, %v) = %d, %v, %v", author.id, author.name, text, mt, mi, id, ms, err)
	if wrong && err == nil || !wrong && !unknown && err != nil {
		n.bad("compose/result", "composing %q with %d media types and %d media ids: %v", text, len(mt), len(mi), err)
	}
	if err != nil {
		return nil, false
	}
	want := map[int64]bool{}
	for _, s := range p.mentions {
		want[n.byName[s].id] = true
	}
	got := map[int64]bool{}
	for _, m := range ms {
		got[m] = true
	}
	if !reflect.DeepEqual(want, got) {
		n.bad("compose/mentions", "composing %q mentions %v instead of %v", text, ms, keys(want))
	}
	p.PostID = id
	for i := range mi {
		p.Medias = append(p.Medias, sn.Media{MediaID: mi[i], MediaType: mt[i]})
	}
	n.mu.Lock()
	dup := n.given[id]
	n.given[id] = true
	n.mu.Unlock()
	if dup || id <= 0 {
		n.bad("compose/id", "post id %d was given twice or is not positive", id)
		return nil, false
	}
	h.Observe("posts", 1)
	return p, true
}

// recipients returns whose home timeline the post belongs to.
func (n *network) recipients(p *post) map[int64]bool {
	to := map[int64]bool{}
	for f := range n.byID[p.Creator.UserID].followers {
		to[f] = true
	}
	for _, s := range p.mentions {
		to[n.byName[s].id] = true
	}
	return to
}

func (n *network) record(p *post) {
	a := n.byID[p.Creator.UserID]
	a.timeline = append([]int64{p.PostID}, a.timeline...)
	n.posts[p.PostID] = p
	n.order = append(n.order, p.PostID)
	for id := range n.recipients(p) {
		n.byID[id].home = append(n.byID[id].home, p.PostID)
	}
}

func (n *network) comparePost(got sn.Post, p *post) {
	why := ""
	urls := urlRE.FindAllString(p.text, -1)
	text := got.Text
	seen := map[string]bool{}
	for i, u := range got.Urls {
		if seen[u.ShortenedUrl] || u.ShortenedUrl == "" {
			why = "short urls are not distinct"
		}
		seen[u.ShortenedUrl] = true
		if i >= len(urls) || u.ExpandedUrl != urls[i] {
			why = "urls"
		}
		text = strings.ReplaceAll(text, u.ShortenedUrl, u.ExpandedUrl)
		if !strings.Contains(got.Text, u.ShortenedUrl) && !strings.Contains(p.text[strings.Index(p.text, u.ExpandedUrl)+1:], u.ExpandedUrl) {
			why = "a short url is not in the text"
		}
	}
	if len(got.Urls) != len(urls) {
		why = "urls"
	}
	if text != p.text {
		why = "text"
	}
	for _, u := range urls {
		if regexp.MustCompile(regexp.QuoteMeta(u) + `([^a-zA-Z0-9_!~*'().&=+$%-]|$)`).MatchString(got.Text) {
			why = "text still has the url " + u
		}
	}
	ms := map[string]int64{}
	for _, m := range got.UserMentions {
		ms[m.Username] = m.UserID
	}
	want := map[string]int64{}
	for _, s := range p.mentions {
		want[s] = n.byName[s].id
	}
	switch {
	case got.PostID != p.PostID:
		why = "id"
	case got.Creator != p.Creator:
		why = "creator"
	case !reflect.DeepEqual(ms, want):
		why = "mentions"
	case got.PostType != p.PostType:
		why = "type"
	case p.ReqID != 0 && got.ReqID != p.ReqID:
		why = "request id"
	case len(got.Medias) != len(p.Medias) || len(p.Medias) > 0 && !reflect.DeepEqual(got.Medias, p.Medias):
		why = "media"
	case got.Timestamp < p.from || got.Timestamp > p.to:
		why = fmt.Sprintf("timestamp not in %d..%d", p.from, p.to)
	}
	if why != "" {
		n.bad("post/content", "wrong %s: %+v for the text %q, media %v, mentions %v by %v", why, got, p.text, p.Medias, want, p.Creator)
	}
	for _, u := range got.Urls {
		coll := must(n.urlDB.GetCollection(ctx, "url-shorten", "url-shorten"))
		var l []sn.URL
		cur := must(coll.FindMany(ctx, bson.D{{Key: "shortenedurl", Value: u.ShortenedUrl}}))
		cur.All(ctx, &l)
		if len(l) != 1 || l[0] != u {
			n.bad("post/url", "short url %q of %q is stored as %v", u.ShortenedUrl, u.ExpandedUrl, l)
		}
	}
	h.Observe("posts_compared", 1)
}

func (n *network) readPosts(r *rand.Rand) {
	if len(n.order) == 0 {
		return
	}
	if r.Intn(3) == 0 {
		id := n.order[r.Intn(len(n.order))]
		got, err := n.storage.ReadPost(ctx, 1, id)
		if err != nil {
			n.bad("post/read", "ReadPost(%d): %v", id, err)
			return
		}
		n.comparePost(got, n.posts[id])
		if _, err := n.storage.ReadPost(ctx, 1, 12345); err == nil {
			n.bad("post/unknown", "ReadPost of an unknown post succeeded")
		}
		return
	}
	var ids []int64
	want := map[int64]bool{}
	for i := 0; i < r.Intn(6); i++ {
		id := n.order[r.Intn(len(n.order))]
		if r.Intn(8) == 0 {
			id = 77777
		} else {
			want[id] = true
		}
		ids = append(ids, id)
	}
	got, err := n.storage.ReadPosts(ctx, 1, ids)
	seen := map[int64]bool{}
	for _, p := range got {
		seen[p.PostID] = true
		if q := n.posts[p.PostID]; q != nil {
			n.comparePost(p, q)
		}
	}
	if err != nil || !reflect.DeepEqual(seen, want) || len(got) > len(ids) {
		n.bad("post/read-many", "ReadPosts(%v) gave %v, %v", ids, keys(seen), err)
	}
}

func slice(l []int64, start, stop int64) []int64 {
	if start < 0 || stop <= start || start >= int64(len(l)) {
		return []int64{}
	}
	return l[start:min(stop, int64(len(l)))]
}

func same(a, b []int64) bool { return len(a) == 0 && len(b) == 0 || reflect.DeepEqual(a, b) }

func (n *network) readTimelines(r *rand.Rand, m *member, all bool) {
	start, stop := int64(r.Intn(8)-1), int64(r.Intn(12)-1)
	if all {
		start, stop = 0, 1000
	}
	rd, rh := n.api.ReadUserTimeline, n.api.ReadHomeTimeline
	if r.Intn(2) == 0 {
		rd = func(ctx context.Context, u, a, b int64) ([]int64, error) {
			return n.timeline.ReadUserTimeline(ctx, 1, u, a, b)
		}
		rh = func(ctx context.Context, u, a, b int64) ([]int64, error) {
			return n.home.ReadHomeTimeline(ctx, 1, u, a, b)
		}
	}
	got, err := rd(ctx, m.id, start, stop)
	if !same(got, slice(m.timeline, start, stop)) || err != nil && len(m.timeline) > 0 {
		n.bad("timeline/user", "user timeline of %q [%d:%d] = %v, %v instead of %v", m.name, start, stop, got, err, slice(m.timeline, start, stop))
	}
	got, err = rh(ctx, m.id, start, stop)
	if !same(got, slice(m.home, start, stop)) || err != nil {
		n.bad("timeline/home", "home timeline of %q [%d:%d] = %v, %v instead of %v", m.name, start, stop, got, err, slice(m.home, start, stop))
	}
	h.Observe("timelines_compared", 2)
}

func (n *network) lookups(r *rand.Rand) {
	m := n.someone(r)
	got, err := n.userID.GetUserId(ctx, 1, m.name)
	if err != nil || got != m.id {
		n.bad("user/id", "GetUserId(%q) = %d, %v instead of %d", m.name, got, err, m.id)
	}
	if got, err := n.userID.GetUserId(ctx, 1, "nobody"); err == nil {
		n.bad("user/id-unknown", "GetUserId of an unknown user = %d", got)
	}
	c, err := n.users.ComposeCreatorWithUsername(ctx, 1, m.name)
	if err != nil || c != (sn.Creator{UserID: m.id, Username: m.name}) {
		n.bad("user/creator", "ComposeCreatorWithUsername(%q) = %+v, %v", m.name, c, err)
	}
	c, err = n.users.ComposeCreatorWithUserId(ctx, 1, m.id, m.name)
	if err != nil || c != (sn.Creator{UserID: m.id, Username: m.name}) {
		n.bad("user/creator", "ComposeCreatorWithUserId(%q) = %+v, %v", m.name, c, err)
	}
	if c, err := n.users.ComposeCreatorWithUsername(ctx, 1, "nobody"); err == nil {
		n.bad("user/creator-unknown", "ComposeCreatorWithUsername of an unknown user = %+v", c)
	}
	if f, err := n.graph.GetFollowers(ctx, 1, 4242424242); err == nil {
		n.bad("graph/unknown", "GetFollowers of an unknown user = %v", f)
	}
	if f, err := n.graph.GetFollowees(ctx, 1, 4242424242); err == nil {
		n.bad("graph/unknown", "GetFollowees of an unknown user = %v", f)
	}
	// mentions
	var l []string
	want := map[string]int64{}
	for i := 0; i < r.Intn(5); i++ {
		o := n.someone(r)
		l = append(l, o.name)
		want[o.name] = o.id
	}
	ms, err := n.mentions.ComposeUserMentions(ctx, 1, l)
	seen := map[string]int64{}
	for _, x := range ms {
		seen[x.Username] = x.UserID
	}
	if err != nil || !reflect.DeepEqual(seen, want) || len(ms) > len(l) {
		n.bad("user/mentions", "ComposeUserMentions(%q) = %v, %v instead of %v", l, ms, err, want)
	}
	var us []string
	for i := 0; i < r.Intn(4); i++ {
		us = append(us, fmt.Sprint("http://u", r.Intn(3)))
	}
	su, err := n.urls.ComposeUrls(ctx, 1, us)
	ok := err == nil && len(su) == len(us)
	short := map[string]bool{}
	for i := range su {
		ok = ok && su[i].ExpandedUrl == us[i] && !short[su[i].ShortenedUrl]
		short[su[i].ShortenedUrl] = true
	}
	if !ok {
		n.bad("url/compose", "ComposeUrls(%q) = %v, %v", us, su, err)
	}
	h.Observe("lookups", 1)
}

func (n *network) step(r *rand.Rand) {
	if len(n.members) < 2 {
		n.register(r)
		return
	}
	h.Observe("requests", 1)
	switch k := r.Intn(20); {
	case k < 2:
		n.register(r)
	case k < 3:
		n.login(r)
	case k < 8:
		n.follow(r)
	case k < 12:
		if p, ok := n.write(r, n.someone(r)); ok {
			n.record(p)
		}
	case k < 14:
		n.readPosts(r)
	case k < 15:
		n.lookups(r)
	case k < 17:
		n.readGraph(n.someone(r))
	default:
		n.readTimelines(r, n.someone(r), r.Intn(4) == 0)
	}
}

func (n *network) checkAll(r *rand.Rand) {
	for _, m := range n.members {
		n.readGraph(m)
		n.readTimelines(r, m, true)
	}
	for _, id := range n.order {
		got, err := n.storage.ReadPost(ctx, 1, id)
		if err != nil {
			n.bad("post/read", "ReadPost(%d): %v", id, err)
			continue
		}
		n.comparePost(got, n.posts[id])
	}
}

func sequential(i int) {
	r := h.Rand(int64(i))
	n := newNetwork(r, []float64{0, 0.3, 1}[i%3])
	for j := 0; j < h.N(120, 300); j++ {
		n.step(r)
	}
	n.checkAll(r)
	h.Case(fmt.Sprint("seq", i), len(n.order) > 0)
}

// parallel runs f in k goroutines.
func parallel(k int, f func(w int)) {
	var wg sync.WaitGroup
	start := make(chan struct{})
	for w := 0; w < k; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			if p := hx.Catch(func() { f(w) }); p != "" {
				h.Violate("panic", p, nil)
			}
		}()
	}
	close(start)
	wg.Wait()
}

func concurrent(i int) {
	r := h.Rand(100000 + int64(i))
	n := newNetwork(r, []float64{0, 0.3, 1}[i%3])
	const k = 8
	rs := make([]*rand.Rand, k)
	for w := range rs {
		rs[w] = h.Rand(200000 + int64(i*k+w))
	}
	// registrations of the same names and IDs: one of each succeeds
	type reg struct {
		name, pwd string
		id        int64
	}
	var mu sync.Mutex
	var done []reg
	parallel(k, func(w int) {
		for j := 0; j < 6; j++ {
			x := reg{fmt.Sprint("u", j), fmt.Sprint("pw", w), int64(1000*(w+1) + j)}
			if rs[w].Intn(4) == 0 {
				x.id = int64(100 + j) // the same ID for another name
				x.name = fmt.Sprint("v", j, "-", w)
			}
			if n.users.RegisterUserWithId(ctx, 1, "F", "L", x.name, x.pwd, x.id) == nil {
				mu.Lock()
				done = append(done, x)
				mu.Unlock()
			}
		}
		if err := n.users.RegisterUser(ctx, 1, "F", "L", fmt.Sprint("g", w), "pw"); err != nil {
			n.bad("register/result", "RegisterUser of a new name: %v", err)
		}
	})
	for w := 0; w < k; w++ {
		name := fmt.Sprint("g", w)
		id, err := n.userID.GetUserId(ctx, 1, name)
		if err != nil || n.byID[id] != nil {
			n.bad("register/generated-id", "concurrently registered users share the id %d, %v", id, err)
			return
		}
		n.add(name, "pw", id)
	}
	for _, x := range done {
		if n.byName[x.name] != nil || n.byID[x.id] != nil {
			n.bad("register/concurrent", "the name %q or id %d was registered twice", x.name, x.id)
			return
		}
		n.add(x.name, x.pwd, x.id)
	}
	for j := 0; j < 6; j++ {
		if n.byName[fmt.Sprint("u", j)] == nil {
			// may only happen when nobody asked for it
			n.bad("register/concurrent", "nobody could register the name u%d", j)
			return
		}
	}
	for _, x := range done {
		if _, err := n.users.Login(ctx, 1, x.name, x.pwd); err != nil {
			n.bad("login/result", "login of %q with the password of its registration: %v", x.name, err)
		}
	}
	// follows: the edges of a user are changed by one worker only
	parallel(k, func(w int) {
		r := rs[w]
		for j := 0; j < 30; j++ {
			a := n.members[(r.Intn(len(n.members))/k*k+w)%len(n.members)]
			if len(n.members)%k != 0 && (indexOf(n.members, a)%k != w) {
				continue
			}
			b := n.someone(r)
			if a == b {
				continue
			}
			switch r.Intn(4) {
			case 0:
				if err := n.graph.Unfollow(ctx, 1, a.id, b.id); err != nil {
					n.bad("follow/result", "Unfollow: %v", err)
				}
				mu.Lock()
				delete(a.followees, b.id)
				delete(b.followers, a.id)
				mu.Unlock()
			case 1:
				if _, err := n.graph.GetFollowers(ctx, 1, b.id); err != nil {
					n.bad("graph/followers", "GetFollowers: %v", err)
				}
			default:
				if err := n.graph.Follow(ctx, 1, a.id, b.id); err != nil {
					n.bad("follow/result", "Follow: %v", err)
				}
				mu.Lock()
				a.followees[b.id] = true
				b.followers[a.id] = true
				mu.Unlock()
			}
			h.Observe("concurrent_follows", 1)
		}
	})
	for _, m := range n.members {
		n.readGraph(m)
	}
	// posts, with several writers per author
	type written struct {
		p *post
		w int
	}
	var all []written
	parallel(k, func(w int) {
		r := rs[w]
		author := n.members[w/2]
		for j := 0; j < 8; j++ {
			if p, ok := n.write(r, author); ok {
				mu.Lock()
				all = append(all, written{p, w})
				mu.Unlock()
				got, err := n.storage.ReadPost(ctx, 1, p.PostID)
				if err != nil {
					n.bad("post/read", "ReadPost of a post just composed: %v", err)
				} else {
					n.comparePost(got, p)
				}
				// one's own post is in the timeline at once
				l, err := n.timeline.ReadUserTimeline(ctx, 1, author.id, 0, 1000)
				if err != nil || count(l, p.PostID) != 1 {
					n.bad("timeline/user", "post %d is %d times in its author's timeline after ComposePost, %v", p.PostID, count(l, p.PostID), err)
				}
				n.home.ReadHomeTimeline(ctx, 1, n.someone(r).id, 0, 10)
				n.storage.ReadPosts(ctx, 1, l)
			}
			h.Observe("concurrent_posts", 1)
		}
	})
	check := func(key, whose string, got []int64, err error, want []written, newestFirst bool) {
		if newestFirst {
			got = append([]int64{}, got...)
			for a, b := 0, len(got)-1; a < b; a, b = a+1, b-1 {
				got[a], got[b] = got[b], got[a]
			}
		}
		pos := map[int64]int{}
		for x, id := range got {
			pos[id] = x + 1
		}
		last := map[int]int{}
		ok := len(got) == len(want) && len(pos) == len(got) && (err == nil || len(want) == 0)
		for _, x := range want {
			p := pos[x.p.PostID]
			ok = ok && p > last[x.w]
			last[x.w] = p
		}
		if !ok {
			var ids []string
			for _, x := range want {
				ids = append(ids, fmt.Sprintf("%d by writer %d", x.p.PostID, x.w))
			}
			n.bad(key, "timeline of %s (oldest first): %v, %v; composed: %v", whose, got, err, ids)
		}
		h.Observe("timelines_compared", 1)
	}
	homes := map[int64][]written{}
	authors := map[int64][]written{}
	for _, x := range all {
		authors[x.p.Creator.UserID] = append(authors[x.p.Creator.UserID], x)
		for id := range n.recipients(x.p) {
			homes[id] = append(homes[id], x)
		}
	}
	for _, m := range n.members {
		got, err := n.timeline.ReadUserTimeline(ctx, 1, m.id, 0, 1000)
		check("timeline/user", m.name, got, err, authors[m.id], true)
		got, err = n.home.ReadHomeTimeline(ctx, 1, m.id, 0, 1000)
		check("timeline/home", m.name, got, err, homes[m.id], false)
	}
	h.Case(fmt.Sprint("conc", i), len(all) > 0)
}

func indexOf(l []*member, m *member) int {
	for i := range l {
		if l[i] == m {
			return i
		}
	}
	return -1
}

func count(l []int64, v int64) (n int) {
	for _, x := range l {
		if x == v {
			n++
		}
	}
	return
}

func main() {
	h = hx.New()
	h.Rule = "a run of requests against a fresh application; distinct by seed, non-trivial when posts were composed"
	os.Stdout = must(os.OpenFile(os.DevNull, os.O_WRONLY, 0))
	log.SetOutput(io.Discard)
	if h.Part("sequential") {
		for i := 0; i < h.N(90, 3000); i++ {
			if p := hx.Catch(func() { sequential(i) }); p != "" {
				h.Violate("panic", p, nil)
			}
		}
	}
	if h.Part("concurrent") {
		for i := 0; i < h.N(30, 1000); i++ {
			if p := hx.Catch(func() { concurrent(i) }); p != "" {
				h.Violate("panic", p, nil)
			}
		}
	}
	if h.Part("ids") {
		for i := 0; i < h.N(6, 60); i++ {
			s := must(sn.NewUniqueIdServiceImpl(ctx))
			var mu sync.Mutex
			seen := map[int64]bool{}
			parallel(8, func(w int) {
				var l []int64
				for j := 0; j < 2000; j++ {
					id, err := s.ComposeUniqueId(ctx, 1, int64(j%4))
					if err != nil || id <= 0 {
						h.Violatef("id/result", nil, "ComposeUniqueId = %d, %v", id, err)
						return
					}
					l = append(l, id)
				}
				mu.Lock()
				defer mu.Unlock()
				for _, id := range l {
					if seen[id] {
						h.Violatef("id/duplicate", nil, "the id %d was given twice", id)
					}
					seen[id] = true
				}
			})
			h.Observe("unique_ids", len(seen))
			h.Case(fmt.Sprint("ids", i), true)
		}
	}
	h.Done()
}
