// c19 drives the services of the hotel reservation application with random requests over stored hotels, rates,
// profiles and users (its own and generated ones), and judges every answer against the stored data and a reservation book.
package main

import (
	"context"
	"fmt"
	"math"
	"math/rand"
	"reflect"
	"sort"
	"strings"
	"sync"
	"time"

	"verif/harness/hx"

	hr "github.com/blueprint-uservices/blueprint/examples/dsb_hotel/workflow/hotelreservation"
	"github.com/blueprint-uservices/blueprint/runtime/core/backend"
	"github.com/blueprint-uservices/blueprint/runtime/plugins/simplecache"
	"github.com/blueprint-uservices/blueprint/runtime/plugins/simplenosqldb"
	"go.mongodb.org/mongo-driver/bson"
)

var ctx = context.Background()
var h *hx.H

func must[T any](v T, err error) T {
	if err != nil {
		panic(fmt.Sprintf("setup: %v", err))
	}
	return v
}

// lossy is a cache that may forget an entry at any time, as memcached does.
type lossy struct {
	backend.Cache
	mu sync.Mutex
	r  *rand.Rand
	p  float64
}

func (c *lossy) Get(ctx context.Context, key string, val interface{}) (bool, error) {
	c.mu.Lock()
	forget := c.r.Float64() < c.p
	c.mu.Unlock()
	if forget {
		c.Cache.Delete(ctx, key)
	}
	return c.Cache.Get(ctx, key, val)
}

func newCache(r *rand.Rand, p float64) backend.Cache {
	c := must(simplecache.NewSimpleCache(ctx))
	if p == 0 {
		return c
	}
	return &lossy{Cache: c, r: rand.New(rand.NewSource(r.Int63())), p: p}
}

func load[T any](db backend.NoSQLDatabase, d, c string) []T {
	var xs []T
	coll := must(db.GetCollection(ctx, d, c))
	cur := must(coll.FindMany(ctx, bson.D{}))
	if err := cur.All(ctx, &xs); err != nil {
		panic(err)
	}
	return xs
}

func put[T any](db backend.NoSQLDatabase, d, c string, xs ...T) {
	coll := must(db.GetCollection(ctx, d, c))
	for _, x := range xs {
		if err := coll.InsertOne(ctx, x); err != nil {
			panic(err)
		}
	}
}

// ---------------------------------------------------------------- reservations

type book struct {
	cap    map[string]int64
	taken  map[string]int64 // hotel and night
	hotels []string
}

func (b *book) key(hotel string, n time.Time) string { return hotel + "|" + n.Format("2006-01-02") }

func nights(in, out string) ([]time.Time, bool) {
	a, e1 := time.Parse("2006-01-02", in)
	z, e2 := time.Parse("2006-01-02", out)
	if e1 != nil || e2 != nil {
		return nil, false
	}
	var ns []time.Time
	for a.Before(z) {
		ns = append(ns, a)
		a = a.AddDate(0, 0, 1)
	}
	return ns, true
}

func (b *book) free(hotel string, ns []time.Time, rooms int64) bool {
	for _, n := range ns {
		if rooms > b.cap[hotel]-b.taken[b.key(hotel, n)] {
			return false
		}
	}
	return true
}

func (b *book) reserve(hotel string, ns []time.Time, rooms int64) {
	for _, n := range ns {
		b.taken[b.key(hotel, n)] += rooms
	}
}

func newBook(db backend.NoSQLDatabase) *book {
	b := &book{cap: map[string]int64{}, taken: map[string]int64{}}
	for _, x := range load[hr.HotelNumber](db, "reservation-db", "number") {
		b.cap[x.HotelId] = x.Number
		b.hotels = append(b.hotels, x.HotelId)
	}
	b.taken = stored(db)
	return b
}

// stored adds up the reservations in the database by hotel and night.
func stored(db backend.NoSQLDatabase) map[string]int64 {
	t := map[string]int64{}
	for _, x := range load[hr.Reservation](db, "reservation-db", "reservation") {
		ns, _ := nights(x.InDate, x.OutDate)
		for _, n := range ns {
			t[x.HotelId+"|"+n.Format("2006-01-02")] += x.Number
		}
	}
	return t
}

func day(d int) string {
	return time.Date(2015, 2, 24, 0, 0, 0, 0, time.UTC).AddDate(0, 0, d).Format("2006-01-02")
}

func newReservations(r *rand.Rand, p float64) (hr.ReservationService, backend.NoSQLDatabase, []string) {
	db := must(simplenosqldb.NewSimpleNoSQLDB(ctx))
	var small []string
	for i := 0; i < 3; i++ {
		small = append(small, fmt.Sprint("small", i))
		put(db, "reservation-db", "number", hr.HotelNumber{HotelId: small[i], Number: int64(1 + r.Intn(6))})
	}
	for _, d := range r.Perm(8)[:r.Intn(6)] {
		put(db, "reservation-db", "reservation", hr.Reservation{HotelId: small[0], CustomerName: "old", InDate: day(d), OutDate: day(d + 1), Number: 1})
	}
	s, err := hr.NewReservationServiceImpl(ctx, newCache(r, p), db)
	if err != nil {
		h.Violatef("reservation/create", nil, "NewReservationServiceImpl: %v", err)
		return nil, nil, nil
	}
	return s, db, append(small, "1", "7", "4")
}

type request struct {
	hotels  []string
	in, out string
	rooms   int64
	make    bool
}

func (q request) String() string {
	op := "check"
	if q.make {
		op = "make"
	}
	return fmt.Sprintf("%s %v %s..%s x%d", op, q.hotels, q.in, q.out, q.rooms)
}

// call runs a request, giving up on it after a long time.
func call(s hr.ReservationService, q request) (res []string, err error, bad string) {
	done := make(chan struct{})
	go func() {
		defer close(done)
		bad = hx.Catch(func() {
			if q.make {
				res, err = s.MakeReservation(ctx, "cust", q.hotels, q.in, q.out, q.rooms)
			} else {
				res, err = s.CheckAvailability(ctx, "cust", q.hotels, q.in, q.out, q.rooms)
			}
		})
	}()
	select {
	case <-done:
		return res, err, bad
	case <-time.After(60 * time.Second):
		h.Violatef("reservation/answer", q.String(), "no answer to %v within a minute", q)
		h.Done()
		return
	}
}

func gen(r *rand.Rand, hotels []string, invalid bool) request {
	d := r.Intn(12)
	q := request{in: day(d), out: day(d + 1 + r.Intn(4)), rooms: int64(1 + r.Intn(3)), make: r.Intn(5) < 3}
	if r.Intn(30) == 0 {
		q.rooms = []int64{1000, math.MaxInt64, math.MaxInt64 - 1, 200, 201}[r.Intn(5)]
	}
	for _, i := range r.Perm(len(hotels))[:1+r.Intn(len(hotels))] {
		q.hotels = append(q.hotels, hotels[i])
	}
	if r.Intn(15) == 0 {
		q.hotels = append([]string{"nosuchhotel"}, q.hotels...)
	}
	if q.make {
		q.hotels = q.hotels[:1]
	}
	if invalid && r.Intn(10) == 0 {
		switch r.Intn(6) {
		case 0:
			q.out = q.in
		case 1:
			q.in, q.out = q.out, q.in
		case 2:
			q.in = []string{"", "2015-02-30", "garbage", "2015-4-9", "9999-99-99", "2015-13-01"}[r.Intn(6)]
		case 3:
			q.out = []string{"", "2015-02-30", "garbage", "2015-4-9", "9999-99-99", "2015-13-01"}[r.Intn(6)]
		case 4:
			q.rooms = []int64{0, -1, -5, math.MinInt64}[r.Intn(4)]
		case 5:
			q.hotels = nil
		}
	}
	return q
}

func sequential(i int) {
	r := h.Rand(int64(i))
	p := []float64{0, 0, 0.1, 0.5, 1}[i%5]
	s, db, hotels := newReservations(r, p)
	if s == nil {
		return
	}
	b := newBook(db)
	var log []string
	bad := func(key, f string, a ...any) {
		h.Violatef(key, map[string]any{"requests": log[max(0, len(log)-60):], "forgetful_cache": p}, f, a...)
	}
	made := 0
	for j := 0; j < 120; j++ {
		q := gen(r, hotels, true)
		log = append(log, q.String())
		ns, ok := nights(q.in, q.out)
		res, err, fail := call(s, q)
		if fail != "" {
			bad("reservation/answer", "%v: %s", q, fail)
			return
		}
		valid := ok && len(ns) > 0 && q.rooms > 0 && len(q.hotels) > 0
		switch {
		case !valid && q.make:
			if err == nil && len(res) > 0 {
				bad("reservation/invalid-accepted", "%v was accepted: %v", q, res)
			}
		case !valid:
			if err == nil && len(res) > 0 && (!ok || len(ns) == 0) {
				bad("reservation/invalid-available", "%v found availability: %v", q, res)
			}
		case q.make:
			want := b.free(q.hotels[0], ns, q.rooms)
			if err != nil || want != (len(res) > 0) || (want && (len(res) != 1 || res[0] != q.hotels[0])) {
				bad("reservation/decision", "%v = %v, %v; that many rooms are free (capacity %d): %v", q, res, err, b.cap[q.hotels[0]], want)
				return
			}
			if want {
				b.reserve(q.hotels[0], ns, q.rooms)
				made++
				h.Observe("reservations_accepted", 1)
			} else {
				h.Observe("reservations_rejected", 1)
			}
		default:
			var want []string
			for _, x := range q.hotels {
				if b.free(x, ns, q.rooms) {
					want = append(want, x)
				}
			}
			got := append([]string{}, res...)
			sort.Strings(got)
			sort.Strings(want)
			if err != nil || strings.Join(got, ",") != strings.Join(want, ",") {
				bad("reservation/availability", "%v = %v, %v instead of %v", q, res, err, want)
				return
			}
			h.Observe("availability_checks", 1)
		}
	}
	if got := stored(db); !sameBook(got, b.taken) {
		bad("reservation/stored", "the reservations stored add up to %v instead of %v", got, b.taken)
	}
	h.Case(fmt.Sprint("seq", i), made > 0)
	if i < 1 {
		h.Sample(log[:20])
	}
}

func sameBook(a, b map[string]int64) bool {
	for k, v := range a {
		if b[k] != v {
			return false
		}
	}
	for k, v := range b {
		if a[k] != v {
			return false
		}
	}
	return true
}

type done struct {
	q          request
	ns         []time.Time
	call, ret  int64
	ok         bool
	res        []string
	start, end int64
}

func concurrent(i int) {
	r := h.Rand(10000 + int64(i))
	p := []float64{0, 0.3, 1}[i%3]
	s, db, hotels := newReservations(r, p)
	if s == nil {
		return
	}
	hotels = hotels[:3]
	b := newBook(db)
	before := map[string]int64{}
	for k, v := range b.taken {
		before[k] = v
	}
	var mu sync.Mutex
	var all []done
	var clock hx.Clock
	var wg sync.WaitGroup
	for w := 0; w < 8; w++ {
		rr := h.Rand(20000 + int64(i*10+w))
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := 0; j < 12; j++ {
				q := gen(rr, hotels, false)
				ns, _ := nights(q.in, q.out)
				d := done{q: q, ns: ns, call: clock.Tick()}
				res, err, fail := call(s, q)
				d.ret = clock.Tick()
				if err != nil || fail != "" {
					h.Violatef("reservation/answer", q.String(), "%v: %v %s", q, err, fail)
					return
				}
				d.res, d.ok = res, len(res) > 0
				mu.Lock()
				all = append(all, d)
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	var rep []string
	for _, d := range all {
		rep = append(rep, fmt.Sprintf("%d-%d %v = %v", d.call, d.ret, d.q, d.res))
	}
	for _, d := range all {
		if d.q.make && d.ok {
			b.reserve(d.q.hotels[0], d.ns, d.q.rooms)
			h.Observe("concurrent_accepted", 1)
		}
	}
	for k, v := range b.taken {
		if c := b.cap[strings.Split(k, "|")[0]]; v > c {
			h.Violatef("reservation/overbooked", rep, "%d rooms were reserved for %s, but the hotel has %d", v, k, c)
		}
	}
	if got := stored(db); !sameBook(got, b.taken) {
		h.Violatef("reservation/stored", rep, "the reservations stored add up to %v instead of %v", got, b.taken)
	}
	// What was taken before a call started is a lower bound of what it saw; what was taken by calls that started
	// before it returned an upper bound.
	for _, d := range all {
		lo, hi := &book{cap: b.cap, taken: map[string]int64{}}, &book{cap: b.cap, taken: map[string]int64{}}
		for k, v := range before {
			lo.taken[k], hi.taken[k] = v, v
		}
		for _, e := range all {
			if !e.q.make || !e.ok || e.call == d.call {
				continue
			}
			if e.ret < d.call {
				lo.reserve(e.q.hotels[0], e.ns, e.q.rooms)
			}
			if e.call < d.ret {
				hi.reserve(e.q.hotels[0], e.ns, e.q.rooms)
			}
		}
		got := map[string]bool{}
		for _, x := range d.res {
			got[x] = true
		}
		for _, x := range d.q.hotels {
			if got[x] && !lo.free(x, d.ns, d.q.rooms) {
				h.Violatef("reservation/concurrent-decision", rep, "%v = %v, although %s was full before", d.q, d.res, x)
			}
			if !got[x] && hi.free(x, d.ns, d.q.rooms) {
				h.Violatef("reservation/concurrent-decision", rep, "%v = %v, although %s was never full", d.q, d.res, x)
			}
		}
		h.Observe("concurrent_requests", 1)
	}
	// afterwards everybody sees the same book
	for j := 0; j < 20; j++ {
		q := gen(r, hotels, false)
		q.make = false
		ns, _ := nights(q.in, q.out)
		res, err, fail := call(s, q)
		n := 0
		for _, x := range q.hotels {
			if b.free(x, ns, q.rooms) {
				n++
			}
		}
		if err != nil || fail != "" || len(res) != n {
			h.Violatef("reservation/availability-after", rep, "after concurrent reservations %v = %v, %v %s; %d are free", q, res, err, fail, n)
			break
		}
	}
	h.Case(fmt.Sprint("con", i), true)
}

// ---------------------------------------------------------------- everything else

type world struct {
	front    hr.FrontEndV2Service
	front1   hr.FrontEndService
	geo      hr.GeoService
	search   hr.SearchService
	rate     hr.RateService
	profile  hr.ProfileService
	rec      hr.RecommendationService
	user     hr.UserService
	res      hr.ReservationService
	review   hr.ReviewService
	attr     hr.AttractionsService
	points   []hr.Point
	rates    map[string][]hr.RatePlan
	profiles map[string]hr.HotelProfile
	hotels   []hr.Hotel
	reviews  map[string][]hr.Review
	rest     []hr.Restaurant
	mus      []hr.Museum
	cin      []hr.Cinema
	book     *book
	mu       sync.Mutex
	users    map[string]string
}

func newWorld(r *rand.Rand, p float64) *world {
	w := &world{rates: map[string][]hr.RatePlan{}, profiles: map[string]hr.HotelProfile{}, reviews: map[string][]hr.Review{}, users: map[string]string{}}
	db := func() backend.NoSQLDatabase { return must(simplenosqldb.NewSimpleNoSQLDB(ctx)) }
	geoDB, rateDB, profDB, recDB, userDB, resDB, revDB, attrDB := db(), db(), db(), db(), db(), db(), db(), db()
	for i := 0; i < 10+r.Intn(20); i++ { // hotels of our own
		id := fmt.Sprint("x", i)
		lat, lon := 37.6+r.Float64()*1.5, -122.5+r.Float64()*0.6
		put(geoDB, "geo-db", "geo", hr.Point{Pid: id, Plat: lat, Plon: lon})
		for j := r.Intn(3); j > 0; j-- {
			put(rateDB, "rate-db", "inventory", hr.RatePlan{HotelID: id, Code: fmt.Sprint("C", j), InDate: "2015-04-09", OutDate: "2015-04-17",
				RType: hr.RoomType{BookableRate: float64(r.Intn(300)), Code: "KNG", RoomDescription: "d" + id, TotalRate: float64(r.Intn(300)), TotalRateInclusive: r.Float64()}})
		}
		put(profDB, "profile-db", "hotels", hr.HotelProfile{ID: id, Name: "N" + id, PhoneNumber: fmt.Sprint(r.Intn(1e6)), Description: "d",
			Address: hr.Address{StreetName: "S" + id, City: "C", Lat: lat, Lon: lon}})
		put(recDB, "recommendation-db", "recommendation", hr.Hotel{HId: id, HLat: lat, HLon: lon, HRate: float64(100 + r.Intn(3)*66), HPrice: float64(110 + r.Intn(3)*5)})
		put(resDB, "reservation-db", "number", hr.HotelNumber{HotelId: id, Number: int64(1 + r.Intn(2))})
		for j := r.Intn(3); j > 0; j-- {
			put(revDB, "review-db", "reviews", hr.Review{ReviewId: fmt.Sprint(id, j), HotelId: id, Name: "P", Rating: r.Float64() * 5, Description: "t", Img: hr.Image{Url: "u"}})
		}
		put(attrDB, "attractions-db", "restaurants", hr.Restaurant{RestaurantId: id, RLat: lat + 0.01, RLon: lon, RestaurantName: "r" + id, Rating: 4, Type: "sushi"})
		put(attrDB, "attractions-db", "museums", hr.Museum{MuseumId: id, MLat: lat - 0.01, MLon: lon + 0.01, MuseumName: "m" + id, Type: "t"})
		put(attrDB, "attractions-db", "cinemas", hr.Cinema{CinemaId: id, CLat: lat, CLon: lon + 0.01, CinemaName: "c" + id, Type: "t"})
	}
	w.geo = must(hr.NewGeoServiceImpl(ctx, geoDB))
	w.rate = must(hr.NewRateServiceImpl(ctx, newCache(r, p), rateDB))
	w.profile = must(hr.NewProfileServiceImpl(ctx, newCache(r, p), profDB))
	w.rec = must(hr.NewRecommendationServiceImpl(ctx, recDB))
	w.user = must(hr.NewUserServiceImpl(ctx, userDB))
	w.res = must(hr.NewReservationServiceImpl(ctx, newCache(r, p), resDB))
	w.review = must(hr.NewReviewServiceImpl(ctx, newCache(r, p), revDB))
	w.attr = must(hr.NewAttractionsServiceImpl(ctx, attrDB))
	w.search = must(hr.NewSearchServiceImpl(ctx, w.geo, w.rate))
	w.front1 = must(hr.NewFrontEndServiceImpl(ctx, w.search, w.profile, w.rec, w.user, w.res))
	w.front = must(hr.NewFrontEndV2ServiceImpl(ctx, w.search, w.profile, w.rec, w.user, w.res, w.attr, w.review))
	w.points = load[hr.Point](geoDB, "geo-db", "geo")
	for _, x := range load[hr.RatePlan](rateDB, "rate-db", "inventory") {
		w.rates[x.HotelID] = append(w.rates[x.HotelID], x)
	}
	for _, x := range load[hr.HotelProfile](profDB, "profile-db", "hotels") {
		w.profiles[x.ID] = x
	}
	w.hotels = load[hr.Hotel](recDB, "recommendation-db", "recommendation")
	for _, x := range load[hr.Review](revDB, "review-db", "reviews") {
		w.reviews[x.HotelId] = append(w.reviews[x.HotelId], x)
	}
	w.rest = load[hr.Restaurant](attrDB, "attractions-db", "restaurants")
	w.mus = load[hr.Museum](attrDB, "attractions-db", "museums")
	w.cin = load[hr.Cinema](attrDB, "attractions-db", "cinemas")
	w.book = newBook(resDB)
	for i := 0; i <= 500; i++ {
		w.users[fmt.Sprint("Cornell_", i)] = strings.Repeat(fmt.Sprint(i), 10)
	}
	return w
}

func km(lat1, lon1, lat2, lon2 float64) float64 {
	rad := math.Pi / 180
	a := math.Pow(math.Sin((lat2-lat1)*rad/2), 2) + math.Pow(math.Sin((lon2-lon1)*rad/2), 2)*math.Cos(lat1*rad)*math.Cos(lat2*rad)
	return 6371 * 2 * math.Asin(math.Min(1, math.Sqrt(a)))
}

type loc struct {
	id       string
	lat, lon float64
}

// near judges a list of at most five places within ten kilometres, nearest first. The index searches square by square,
// so it may prefer a place to another one that is nearer, but not much nearer.
func near(what string, lat, lon float64, got []string, all []loc) {
	rep := map[string]any{"lat": lat, "lon": lon, "got": got}
	in := map[string]bool{}
	far, last := 0.0, 0.0
	for _, id := range got {
		found := false
		for _, x := range all {
			if x.id == id {
				found = true
				d := km(lat, lon, x.lat, x.lon)
				if d > 10.2 {
					h.Violatef("near/"+what, rep, "%s %s is %.2f km away", what, id, d)
				}
				if d < last*0.97-0.01 {
					h.Violatef("near/"+what, rep, "%v are not sorted by distance", got)
				}
				last = d
				far = math.Max(far, d)
			}
		}
		if !found || in[id] {
			h.Violatef("near/"+what, rep, "%s %s is returned twice or is not stored", what, id)
		}
		in[id] = true
	}
	if len(got) > 5 {
		h.Violatef("near/"+what, rep, "%d %ss returned", len(got), what)
	}
	for _, x := range all {
		if d := km(lat, lon, x.lat, x.lon); !in[x.id] && ((len(got) < 5 && d < 9.8) || (len(got) >= 5 && 3.2*d+0.2 < far)) {
			h.Violatef("near/"+what, rep, "%s %s, %.2f km away, is missing; the farthest of %d returned is %.2f km away", what, x.id, d, len(got), far)
		}
	}
	h.Observe("near_"+what, 1)
	if len(got) > 0 {
		h.Observe("near_"+what+"_found", 1)
	}
}

func (w *world) place(r *rand.Rand) (float64, float64) {
	if r.Intn(6) == 0 {
		return 35.7 + r.Float64()*3.2, -122.6 + r.Float64()*0.9
	}
	x := w.points[r.Intn(len(w.points))]
	return x.Plat + (r.Float64()-0.5)*0.1, x.Plon + (r.Float64()-0.5)*0.1
}

func (w *world) ids(r *rand.Rand) []string {
	var ids []string
	for i := r.Intn(6); i > 0; i-- {
		ids = append(ids, w.points[r.Intn(len(w.points))].Pid)
	}
	return ids
}

func (w *world) step(r *rand.Rand, alone bool) {
	lat, lon := w.place(r)
	eq := func(key string, got, want any, rep any, err error) {
		if err != nil || !reflect.DeepEqual(got, want) {
			h.Violatef(key, rep, "%v: got %+v, %v instead of %+v", rep, got, err, want)
		}
	}
	h.Observe("queries", 1)
	switch r.Intn(11) {
	case 0:
		got, err := w.geo.Nearby(ctx, lat, lon)
		if err != nil {
			h.Violatef("geo/error", nil, "Nearby: %v", err)
		}
		var ls []loc
		for _, x := range w.points {
			ls = append(ls, loc{x.Pid, x.Plat, x.Plon})
		}
		near("hotel", lat, lon, got, ls)
	case 1:
		ids := append(w.ids(r), "nosuchhotel")
		got, err := w.rate.GetRates(ctx, ids, "2015-04-09", "2015-04-10")
		var want []hr.RatePlan
		for _, id := range ids {
			want = append(want, w.rates[id]...)
		}
		if len(got)+len(want) > 0 {
			eq("rate", got, want, fmt.Sprint("rates of ", ids), err)
		}
	case 2:
		ids := w.ids(r)
		got, err := w.profile.GetProfiles(ctx, ids, "en")
		var want []hr.HotelProfile
		for _, id := range ids {
			want = append(want, w.profiles[id])
		}
		if len(got)+len(want) > 0 {
			eq("profile", got, want, fmt.Sprint("profiles of ", ids), err)
		}
		for _, p := range must(w.profile.GetProfiles(ctx, []string{"nosuchhotel"}, "en")) {
			if p != (hr.HotelProfile{}) {
				h.Violatef("profile/unknown", nil, "the profile of an unknown hotel is %+v", p)
			}
		}
	case 3, 4:
		req := []string{"dis", "rate", "price", "nonsense"}[r.Intn(4)]
		got, err := w.front.RecommendHandler(ctx, lat, lon, req, "en")
		if req == "nonsense" {
			if err == nil {
				h.Violatef("recommend/invalid", nil, "RecommendHandler accepted an unknown criterion")
			}
			return
		}
		score := func(x hr.Hotel) float64 {
			return map[string]float64{"dis": km(lat, lon, x.HLat, x.HLon), "rate": -x.HRate, "price": x.HPrice}[req]
		}
		best := math.Inf(1)
		for _, x := range w.hotels {
			best = math.Min(best, score(x))
		}
		in := map[string]bool{}
		for _, p := range got {
			if in[p.ID] || p != w.profiles[p.ID] {
				h.Violatef("recommend/profile", req, "recommended twice or with a wrong profile: %+v", p)
			}
			in[p.ID] = true
		}
		for _, x := range w.hotels {
			d := score(x) - best
			if (d > 1e-6 && in[x.HId]) || (d == 0 && req != "dis" && !in[x.HId]) {
				h.Violatef("recommend/best", req, "%s of hotel %+v is %v, the best is %v; it is recommended: %v", req, x, score(x), best, in[x.HId])
			}
		}
		if err != nil || len(got) == 0 {
			h.Violatef("recommend/none", req, "no hotel is recommended by %s: %v", req, err)
		}
	case 5:
		n := r.Intn(520)
		name, pw := fmt.Sprint("Cornell_", n), strings.Repeat(fmt.Sprint(n), 10)
		switch r.Intn(4) {
		case 0:
			pw += "x"
		case 1:
			pw = strings.Repeat(fmt.Sprint(r.Intn(500)), 10)
		case 2:
			name = "cornell_" + fmt.Sprint(n)
		}
		want := w.users[name] == pw
		got, err := w.user.CheckUser(ctx, name, pw)
		_, err2 := w.front.UserHandler(ctx, name, pw)
		if err != nil || got != want || (err2 == nil) != want {
			h.Violatef("user/check", name, "CheckUser(%s,%s) = %v, %v; UserHandler: %v; they match: %v", name, pw, got, err, err2, want)
		}
	case 6:
		id := append(w.ids(r), "1", "nosuchhotel")[0]
		got, err := w.front.ReviewHandler(ctx, "Cornell_1", "1111111111", id)
		if len(got)+len(w.reviews[id]) > 0 {
			eq("review", got, w.reviews[id], "reviews of "+id, err)
		}
	case 7:
		p := w.profiles[append(w.ids(r), "1")[0]]
		a, e1 := w.front.RestaurantHandler(ctx, "Cornell_2", "2222222222", p.ID)
		b, e2 := w.front.MuseumHandler(ctx, "Cornell_2", "2222222222", p.ID)
		c, e3 := w.front.CinemaHandler(ctx, "Cornell_2", "2222222222", p.ID)
		if e1 != nil || e2 != nil || e3 != nil {
			h.Violatef("attraction/error", p.ID, "attractions near hotel %s: %v %v %v", p.ID, e1, e2, e3)
			return
		}
		var got []string
		var all []loc
		for _, x := range a {
			got = append(got, x.RestaurantId)
			for _, y := range w.rest {
				if y.RestaurantId == x.RestaurantId && y.RestaurantName == x.RestaurantName && y != x {
					h.Violatef("attraction/data", nil, "restaurant %+v instead of %+v", x, y)
				}
			}
		}
		for _, y := range w.rest {
			all = append(all, loc{y.RestaurantId, y.RLat, y.RLon})
		}
		near("restaurant", p.Address.Lat, p.Address.Lon, got, all)
		got, all = nil, nil
		for _, x := range b {
			got = append(got, x.MuseumId)
		}
		for _, y := range w.mus {
			all = append(all, loc{y.MuseumId, y.MLat, y.MLon})
		}
		near("museum", p.Address.Lat, p.Address.Lon, got, all)
		got, all = nil, nil
		for _, x := range c {
			got = append(got, x.CinemaId)
		}
		for _, y := range w.cin {
			all = append(all, loc{y.CinemaId, y.CLat, y.CLon})
		}
		near("cinema", p.Address.Lat, p.Address.Lon, got, all)
		for _, bad := range [][2]string{{"Cornell_2", "wrong"}, {"nobody", "x"}, {"", ""}} {
			if x, err := w.front.RestaurantHandler(ctx, bad[0], bad[1], p.ID); err == nil {
				h.Violatef("attraction/unauthorised", bad, "RestaurantHandler for %v = %v", bad, x)
			}
			if x, err := w.front.ReviewHandler(ctx, bad[0], bad[1], p.ID); err == nil {
				h.Violatef("attraction/unauthorised", bad, "ReviewHandler for %v = %v", bad, x)
			}
		}
	case 8, 9:
		if !alone { // other customers change the availability
			_, err := w.front.SearchHandler(ctx, "c", "2015-04-09", "2015-04-10", lat, lon, "en")
			if err != nil {
				h.Violatef("search/error", nil, "SearchHandler: %v", err)
			}
			return
		}
		d := r.Intn(5)
		in, out := day(d), day(d+1+r.Intn(3))
		ns, _ := nights(in, out)
		near := must(w.geo.Nearby(ctx, lat, lon))
		var want []string
		for _, id := range near {
			for range w.rates[id] {
				if w.book.free(id, ns, 1) {
					want = append(want, id)
				}
			}
		}
		got, err := w.front1.SearchHandler(ctx, "c", in, out, lat, lon, []string{"", "en"}[r.Intn(2)])
		gs, ws := map[string]bool{}, map[string]bool{}
		for _, p := range got {
			gs[p.ID] = true
			if p != w.profiles[p.ID] {
				h.Violatef("search/profile", nil, "search returned profile %+v instead of %+v", p, w.profiles[p.ID])
			}
		}
		for _, id := range want {
			ws[id] = true
		}
		eq("search", gs, ws, fmt.Sprintf("search near %v,%v (%v) for %s..%s", lat, lon, near, in, out), err)
		if len(ws) > 0 {
			h.Observe("searches_found", 1)
		}
		if _, err := w.front1.SearchHandler(ctx, "c", "2015-04-31", "2015-05-02", lat, lon, "en"); err == nil && len(ws) > 0 {
			h.Observe("searches_impossible_dates_accepted", 1)
		}
	default:
		d := r.Intn(5)
		in, out := day(d), day(d+1+r.Intn(3))
		id := append(w.ids(r), "1")[0]
		n := int64(1 + r.Intn(2))
		ns, _ := nights(in, out)
		u := r.Intn(500)
		pw := strings.Repeat(fmt.Sprint(u), 10)
		wrong := ""
		cust := "c"
		switch r.Intn(8) {
		case 0:
			pw, wrong = "bad", "password"
		case 1:
			in, wrong = "2015/04/09", "date"
		case 2:
			cust, wrong = "", "customer"
		case 3:
			in, wrong = "2015-99-99", "date"
		}
		res := ""
		var err error
		fin := make(chan struct{})
		go func() {
			res, err = w.front.ReservationHandler(ctx, in, out, id, cust, fmt.Sprint("Cornell_", u), pw, n)
			close(fin)
		}()
		select {
		case <-fin:
		case <-time.After(60 * time.Second):
			h.Violatef("front/reserve", nil, "no answer within a minute to a reservation for %s..%s", in, out)
			h.Done()
		}
		if wrong != "" {
			if err == nil {
				h.Violatef("front/reserve-invalid", wrong, "a reservation with a wrong %s succeeded: %s", wrong, res)
			}
			return
		}
		w.mu.Lock()
		defer w.mu.Unlock()
		if alone && w.book.free(id, ns, n) != (err == nil) {
			h.Violatef("front/reserve", nil, "reserving %d of %s for %s..%s: %q, %v; free: %v", n, id, in, out, res, err, w.book.free(id, ns, n))
		}
		if err == nil {
			w.book.reserve(id, ns, n)
			h.Observe("front_reservations", 1)
		}
	}
}

func main() {
	h = hx.New()
	h.Rule = "a run of requests; distinct by seed, non-trivial when a reservation was accepted or queries ran"
	if h.Part("sequential") {
		for i := 0; i < h.N(120, 4000); i++ {
			sequential(i)
		}
	}
	if h.Part("concurrent") {
		for i := 0; i < h.N(60, 1500); i++ {
			concurrent(i)
		}
	}
	if h.Part("world") {
		for i := 0; i < h.N(16, 300); i++ {
			r := h.Rand(50000 + int64(i))
			w := newWorld(r, []float64{0, 0.3, 1}[i%3])
			for j := 0; j < 120; j++ {
				if p := hx.Catch(func() { w.step(r, true) }); p != "" {
					h.Violatef("panic", nil, "%s", p)
				}
			}
			h.Case(fmt.Sprint("w", i), true)
		}
	}
	if h.Part("world-concurrent") {
		for i := 0; i < h.N(8, 150); i++ {
			w := newWorld(h.Rand(60000+int64(i)), []float64{0, 0.3, 1}[i%3])
			var wg sync.WaitGroup
			for k := 0; k < 6; k++ {
				r := h.Rand(70000 + int64(i*10+k))
				wg.Add(1)
				go func() {
					defer wg.Done()
					for j := 0; j < 60; j++ {
						if p := hx.Catch(func() { w.step(r, false) }); p != "" {
							h.Violatef("panic", nil, "%s", p)
						}
					}
				}()
			}
			wg.Wait()
			for k, v := range w.book.taken {
				if c := w.book.cap[strings.Split(k, "|")[0]]; v > c {
					h.Violatef("reservation/overbooked", nil, "%d rooms were reserved for %s, but the hotel has %d", v, k, c)
				}
			}
			h.Case(fmt.Sprint("wc", i), true)
		}
	}
	h.Done()
}
