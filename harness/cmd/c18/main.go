// c18 drives the SockShop services, wired to the in-memory backends, with random request sequences and judges every
// answer and the state left behind against a reference model of the shop.
package main

import (
	"context"
	"errors"
	"fmt"
	"math"
	"math/rand"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"verif/harness/hx"

	"github.com/blueprint-uservices/blueprint/examples/sockshop/workflow/cart"
	"github.com/blueprint-uservices/blueprint/examples/sockshop/workflow/catalogue"
	"github.com/blueprint-uservices/blueprint/examples/sockshop/workflow/frontend"
	"github.com/blueprint-uservices/blueprint/examples/sockshop/workflow/order"
	"github.com/blueprint-uservices/blueprint/examples/sockshop/workflow/payment"
	"github.com/blueprint-uservices/blueprint/examples/sockshop/workflow/queuemaster"
	"github.com/blueprint-uservices/blueprint/examples/sockshop/workflow/shipping"
	"github.com/blueprint-uservices/blueprint/examples/sockshop/workflow/user"
	"github.com/blueprint-uservices/blueprint/runtime/plugins/simplenosqldb"
	"github.com/blueprint-uservices/blueprint/runtime/plugins/simplequeue"
	"github.com/blueprint-uservices/blueprint/runtime/plugins/sqlitereldb"
)

var ctx = context.Background()
var h *hx.H

// shop is one instance of the application.
type shop struct {
	users   user.UserService
	carts   cart.CartService
	cat     catalogue.CatalogueService
	orders  order.OrderService
	pay     payment.PaymentService
	ship    *shipWatch
	front   frontend.Frontend
	limit   float32
	stop    context.CancelFunc
	qmDone  chan error
	newFail atomic.Bool // PostShipping fails
}

// shipWatch records what passes through the shipping service, and makes calls fail on request.
type shipWatch struct {
	shipping.ShippingService
	s       *shop
	mu      sync.Mutex
	posted  map[string]shipping.Shipment
	updated map[string]int
	failUpd map[string]int // failures still to inject into UpdateStatus, per shipment
	updFail func() int
	failed  int
}

func (w *shipWatch) PostShipping(ctx context.Context, x shipping.Shipment) (shipping.Shipment, error) {
	if w.s.newFail.Load() {
		return x, errors.New("injected: no shipping today")
	}
	if w.updFail != nil {
		w.mu.Lock()
		w.failUpd[x.ID] = w.updFail()
		w.mu.Unlock()
	}
	y, err := w.ShippingService.PostShipping(ctx, x)
	if err == nil {
		w.mu.Lock()
		w.posted[x.ID] = x
		w.mu.Unlock()
	}
	return y, err
}

func (w *shipWatch) UpdateStatus(ctx context.Context, id, status string) error {
	w.mu.Lock()
	if w.failUpd[id] > 0 {
		w.failUpd[id]--
		w.failed++
		w.mu.Unlock()
		return errors.New("injected: cannot update")
	}
	w.mu.Unlock()
	err := w.ShippingService.UpdateStatus(ctx, id, status)
	if err == nil {
		w.mu.Lock()
		w.updated[id]++
		w.mu.Unlock()
	}
	return err
}

func must[T any](v T, err error) T {
	if err != nil {
		panic(fmt.Sprintf("setup: %v", err))
	}
	return v
}

func newShop(limit float32) *shop {
	s := &shop{limit: limit, qmDone: make(chan error, 1)}
	s.users = must(user.NewUserServiceImpl(ctx, must(simplenosqldb.NewSimpleNoSQLDB(ctx))))
	s.carts = must(cart.NewCartService(ctx, must(simplenosqldb.NewSimpleNoSQLDB(ctx))))
	s.cat = must(catalogue.NewCatalogueService(ctx, must(sqlitereldb.NewSqliteRelDB(ctx))))
	s.pay = must(payment.NewPaymentService(ctx, fmt.Sprint(limit)))
	q := must(simplequeue.NewSimpleQueue(ctx))
	s.ship = &shipWatch{ShippingService: must(shipping.NewShippingService(ctx, q, must(simplenosqldb.NewSimpleNoSQLDB(ctx)))),
		s: s, posted: map[string]shipping.Shipment{}, updated: map[string]int{}, failUpd: map[string]int{}}
	qm := must(queuemaster.NewQueueMaster(ctx, q, s.ship))
	c, stop := context.WithCancel(ctx)
	s.stop = stop
	go func() { s.qmDone <- qm.Run(c) }()
	s.orders = must(order.NewOrderService(ctx, s.users, s.carts, s.pay, s.ship, must(simplenosqldb.NewSimpleNoSQLDB(ctx))))
	s.front = must(frontend.NewFrontend(ctx, s.users, s.cat, s.carts, s.orders))
	return s
}

// finish waits for all shipments to be processed, stops the queue master and judges the shipments.
func (s *shop) finish(orders map[string]string, key string, rep any) {
	// every shipment is updated within a second of the last injected failure; wait much longer than that
	t := time.Now()
	for time.Since(t) < 60*time.Second {
		s.ship.mu.Lock()
		done := len(s.ship.updated) >= len(s.ship.posted)
		s.ship.mu.Unlock()
		if done {
			break
		}
		h.Progress()
		time.Sleep(time.Millisecond)
	}
	s.ship.mu.Lock()
	posted := len(s.ship.posted)
	s.ship.mu.Unlock()
	if posted != len(orders) {
		h.Violatef(key+"/shipment-count", rep, "%d orders were placed but %d shipments submitted", len(orders), posted)
	}
	for id, customer := range orders {
		x, err := s.ship.GetShipment(ctx, id)
		s.ship.mu.Lock()
		n := s.ship.updated[id]
		s.ship.mu.Unlock()
		if err != nil || x.ID != id || x.Name != customer || x.Status != "shipped" || n != 1 {
			h.Violatef(key+"/shipment", rep, "order %s of customer %s: shipment is %+v (%v), its status was updated %d times", id, customer, x, err, n)
		}
		h.Observe("shipments", 1)
	}
	s.stop()
	select {
	case <-s.qmDone:
	case <-time.After(30 * time.Second):
		h.Violatef(key+"/queuemaster-stop", rep, "the queue master is still running 30 s after its context was cancelled")
	}
	h.Observe("failed_status_updates", s.ship.failed)
}

type item struct {
	qty    int
	prices map[float32]bool // what the unit price may be
}

type account struct {
	id, name, pw, email, first, last string
	addrs, cards                     []string
}

type placed struct {
	o        order.Order
	customer string
	seq      int
}

// shopper is one stream of requests together with the model of everything it did.
type shopper struct {
	s        *shop
	r        *rand.Rand
	tag      string
	carts    map[string]map[string]*item
	accounts []*account
	gone     []*account
	addrs    map[string]user.Address
	cards    map[string]user.Card
	socks    map[string]catalogue.Sock
	tags     map[string]bool
	orders   []placed
	log      []string
	alone    bool // nobody else uses the shop
	n        int
	failed   bool
}

func newShopper(s *shop, r *rand.Rand, tag string, alone bool) *shopper {
	return &shopper{s: s, r: r, tag: tag, alone: alone, carts: map[string]map[string]*item{}, addrs: map[string]user.Address{},
		cards: map[string]user.Card{}, socks: map[string]catalogue.Sock{}, tags: map[string]bool{}}
}

func (p *shopper) bad(key, f string, a ...any) {
	p.failed = true
	l := p.log
	if len(l) > 60 {
		l = l[len(l)-60:]
	}
	h.Violatef(key, map[string]any{"requests": l, "shopper": p.tag}, f, a...)
}

func (p *shopper) note(f string, a ...any) { p.log = append(p.log, fmt.Sprintf(f, a...)) }

func (p *shopper) uniq(s string) string {
	p.n++
	return fmt.Sprintf("%s%s%d", p.tag, s, p.n)
}

func (p *shopper) cartOf(id string) map[string]*item {
	if p.carts[id] == nil {
		p.carts[id] = map[string]*item{}
	}
	return p.carts[id]
}

func (p *shopper) account() *account {
	if len(p.accounts) == 0 {
		return nil
	}
	return p.accounts[p.r.Intn(len(p.accounts))]
}

// session returns an id that has or could have a cart: of an account, an earlier session or a new one.
func (p *shopper) session() string {
	switch k := p.r.Intn(10); {
	case k < 4 && len(p.accounts) > 0:
		return p.account().id
	case k < 9 && len(p.carts) > 0:
		return pick(p.r, p.carts)
	}
	return p.uniq("sess")
}

func pick[V any](r *rand.Rand, m map[string]V) string {
	ks := keys(m)
	return ks[r.Intn(len(ks))]
}

func keys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func (p *shopper) sock() string {
	if len(p.socks) == 0 || p.r.Intn(20) == 0 {
		return "nosuchsock"
	}
	return pick(p.r, p.socks)
}

// checkCart compares a cart, read through the frontend and the cart service, with the model.
func (p *shopper) checkCart(id string) {
	for i := 0; i < 2; i++ {
		var got []cart.Item
		var err error
		if i == 0 {
			got, err = p.s.front.GetCart(ctx, id)
		} else {
			got, err = p.s.carts.GetCart(ctx, id)
		}
		if err != nil {
			p.bad("cart/error", "GetCart(%s): %v", id, err)
			return
		}
		if d := p.diffCart(id, got); d != "" {
			p.bad("cart/content", "the cart of %s holds %+v, but %s", id, got, d)
			return
		}
	}
	h.Observe("carts_compared", 1)
}

func (p *shopper) diffCart(id string, got []cart.Item) string {
	want := p.carts[id]
	seen := map[string]bool{}
	for _, it := range got {
		w := want[it.ID]
		switch {
		case seen[it.ID]:
			return fmt.Sprintf("item %s is there twice", it.ID)
		case w == nil:
			return fmt.Sprintf("item %s is not in it", it.ID)
		case w.qty != it.Quantity:
			return fmt.Sprintf("the quantity of %s is %d", it.ID, w.qty)
		case !w.prices[it.UnitPrice]:
			return fmt.Sprintf("the price of %s is one of %v", it.ID, w.prices)
		}
		seen[it.ID] = true
	}
	for k := range want {
		if !seen[k] {
			return fmt.Sprintf("item %s (%d) is missing", k, want[k].qty)
		}
	}
	return ""
}

func one(f float32) map[float32]bool { return map[float32]bool{f: true} }

func (p *shopper) add(id, it string, n int, price float32) {
	c := p.cartOf(id)
	if c[it] == nil {
		c[it] = &item{n, one(price)}
	} else {
		c[it].qty += n
		c[it].prices[price] = true // which of the two prices counts is left open
	}
}

func (p *shopper) merge(into, from string) {
	if into == from {
		return
	}
	for k, it := range p.carts[from] {
		c := p.cartOf(into)
		if c[k] == nil {
			c[k] = it
			continue
		}
		c[k].qty += it.qty
		for f := range it.prices {
			c[k].prices[f] = true
		}
	}
	delete(p.carts, from)
}

func (p *shopper) step() {
	r := p.r
	switch k := r.Intn(100); {
	case k < 14: // one more of an item
		id, it := p.session(), p.sock()
		if r.Intn(8) == 0 {
			id = ""
		}
		p.note("AddItem(%q,%s)", id, it)
		nid, err := p.s.front.AddItem(ctx, id, it)
		s, ok := p.socks[it]
		if ok != (err == nil) {
			p.bad("frontend/additem", "AddItem(%q, %q) of a sock that exists: %v returned %v", id, it, ok, err)
			return
		}
		p.sessionOf("AddItem", id, nid, ok)
		if ok {
			p.add(nid, it, 1, s.Price)
		}
		p.checkCart(nid)
	case k < 22: // several of an item
		id, it, n := p.session(), p.sock(), 1+r.Intn(5)
		price := float32(r.Intn(4000)) / 100
		p.note("cart.AddItem(%s,%s,%d,%v)", id, it, n, price)
		got, err := p.s.carts.AddItem(ctx, id, cart.Item{ID: it, Quantity: n, UnitPrice: price})
		if err != nil {
			p.bad("cart/error", "AddItem: %v", err)
			return
		}
		p.add(id, it, n, price)
		if w := p.carts[id][it]; got.ID != it || got.Quantity != w.qty || !w.prices[got.UnitPrice] {
			p.bad("cart/additem-state", "AddItem returned %+v as the state of the item; the cart should have %d of %s", got, w.qty, it)
		}
		if g, err := p.s.carts.GetItem(ctx, id, it); err != nil || g != got {
			p.bad("cart/getitem", "GetItem after AddItem: %+v, %v; AddItem returned %+v", g, err, got)
		}
		p.checkCart(id)
	case k < 30:
		id, it, n := p.session(), p.sock(), r.Intn(8)-2
		if c := p.carts[id]; len(c) > 0 && r.Intn(2) == 0 {
			it = pick(r, c)
		}
		if r.Intn(8) == 0 {
			id = ""
		}
		p.note("UpdateItem(%q,%s,%d)", id, it, n)
		nid, err := p.s.front.UpdateItem(ctx, id, it, n)
		s, ok := p.socks[it]
		if ok != (err == nil) {
			p.bad("frontend/updateitem", "UpdateItem(%q, %q, %d) of a sock that exists: %v returned %v", id, it, n, ok, err)
			return
		}
		p.sessionOf("UpdateItem", id, nid, ok)
		if ok {
			if n > 0 {
				p.cartOf(nid)[it] = &item{n, one(s.Price)}
			} else {
				delete(p.cartOf(nid), it)
			}
		}
		p.checkCart(nid)
	case k < 36:
		id, it := p.session(), p.sock()
		if c := p.carts[id]; len(c) > 0 && r.Intn(4) > 0 {
			it = pick(r, c)
		}
		p.note("RemoveItem(%s,%s)", id, it)
		if err := p.s.front.RemoveItem(ctx, id, it); err != nil {
			p.bad("frontend/removeitem", "RemoveItem(%s,%s): %v", id, it, err)
		}
		delete(p.cartOf(id), it)
		p.checkCart(id)
	case k < 38:
		id := p.session()
		p.note("DeleteCart(%s)", id)
		if err := p.s.front.DeleteCart(ctx, id); err != nil {
			p.bad("frontend/deletecart", "DeleteCart(%s): %v", id, err)
		}
		delete(p.carts, id)
		p.checkCart(id)
	case k < 41: // look at some item
		id, it := p.session(), p.sock()
		g, err := p.s.carts.GetItem(ctx, id, it)
		w := p.carts[id][it]
		if err != nil || (w == nil && g != cart.Item{}) || (w != nil && (g.ID != it || g.Quantity != w.qty || !w.prices[g.UnitPrice])) {
			p.bad("cart/getitem", "GetItem(%s,%s) = %+v, %v", id, it, g, err)
		}
	case k < 45:
		p.register()
	case k < 52:
		p.login()
	case k < 58:
		p.postAddress()
	case k < 64:
		p.postCard()
	case k < 69:
		p.lookups()
	case k < 85:
		p.newOrder()
	case k < 89:
		p.readOrders()
	case k < 91:
		p.deleteSomething()
	default:
		if p.alone {
			p.catalogue()
		} else {
			p.list()
		}
	}
}

func (p *shopper) sessionOf(op, id, nid string, ok bool) {
	if id != "" && nid != id {
		p.bad("frontend/session", "%s of session %q returned session %q", op, id, nid)
	}
	if id == "" && ok {
		if nid == "" {
			p.bad("frontend/session", "%s without a session did not create one", op)
		} else if p.carts[nid] != nil {
			p.bad("frontend/session", "%s without a session returned the existing session %q", op, nid)
		}
	}
}

func (p *shopper) register() {
	a := &account{name: p.uniq("user"), pw: p.uniq("pw"), email: p.uniq("mail"), first: p.uniq("First"), last: p.uniq("Last")}
	sess := ""
	if p.r.Intn(3) > 0 {
		sess = p.uniq("sess")
		if len(p.carts) > 0 && p.r.Intn(4) > 0 {
			sess = p.anon()
		}
	}
	p.note("Register(%q,%s)", sess, a.name)
	id, err := p.s.front.Register(ctx, sess, a.name, a.pw, a.email, a.first, a.last)
	if err != nil || id == "" {
		p.bad("user/register", "Register(%q, %s) = %q, %v", sess, a.name, id, err)
		return
	}
	for _, b := range append(p.accounts, p.gone...) {
		if b.id == id {
			p.bad("user/register-id", "users %s and %s got the same id", a.name, b.name)
		}
	}
	a.id = id
	p.accounts = append(p.accounts, a)
	if sess != "" {
		p.merge(id, sess)
		p.checkCart(sess)
	}
	p.checkCart(id)
}

// anon returns a session that is not an account.
func (p *shopper) anon() string {
	for i := 0; i < 20; i++ {
		s := pick(p.r, p.carts)
		ok := true
		for _, a := range p.accounts {
			ok = ok && a.id != s
		}
		if ok {
			return s
		}
	}
	return p.uniq("sess")
}

func masked(long string) string {
	n := len(long) - 4
	if n < 0 {
		n = 0
	}
	return strings.Repeat("*", n) + long[n:]
}

func (p *shopper) login() {
	a := p.account()
	name, pw, ok := p.uniq("nobody"), "x", false
	if a != nil && p.r.Intn(8) > 0 {
		name, pw, ok = a.name, a.pw, true
		if k := p.r.Intn(8); k < 3 {
			pw, ok = []string{"", a.pw + "x", p.uniq("pw")}[k], false
		}
	} else if len(p.gone) > 0 && p.r.Intn(2) == 0 {
		b := p.gone[p.r.Intn(len(p.gone))]
		name, pw = b.name, b.pw
	}
	sess := ""
	switch p.r.Intn(4) {
	case 0:
	case 1:
		if a != nil {
			sess = a.id // logged in already
		}
	default:
		if len(p.carts) > 0 {
			sess = p.anon()
		}
	}
	p.note("Login(%q,%s,%s)", sess, name, pw)
	var nid string
	var u user.User
	var err error
	if pan := hx.Catch(func() { nid, u, err = p.s.front.Login(ctx, sess, name, pw) }); pan != "" {
		p.bad("user/login-panic", "Login(%q, %s): %s", sess, name, pan)
		return
	}
	if ok != (err == nil) {
		p.bad("user/login", "Login of %s with the right password: %v returned %v", name, ok, err)
		return
	}
	if !ok {
		if nid != sess {
			p.bad("user/login-session", "a failed login changed session %q to %q", sess, nid)
		}
		if sess != "" {
			p.checkCart(sess)
		}
		return
	}
	if nid != a.id || u.UserID != a.id || u.Username != a.name || u.FirstName != a.first || u.LastName != a.last {
		p.bad("user/login-user", "Login of %+v returned session %q and user %+v", *a, nid, u)
	}
	var addrs, cards []string
	for _, x := range u.Addresses {
		addrs = append(addrs, x.ID)
		if x != p.addrs[x.ID] {
			p.bad("user/login-address", "Login returned address %+v instead of %+v", x, p.addrs[x.ID])
		}
	}
	for _, x := range u.Cards {
		cards = append(cards, x.ID)
		w := p.cards[x.ID]
		w.LongNum = masked(w.LongNum)
		if x != w {
			p.bad("user/login-card", "Login returned card %+v instead of %+v", x, w)
		}
	}
	p.sameSet("user/login-address", "addresses of "+a.name, addrs, a.addrs)
	p.sameSet("user/login-card", "cards of "+a.name, cards, a.cards)
	if sess != "" {
		p.merge(a.id, sess)
		p.checkCart(sess)
	}
	p.checkCart(a.id)
	h.Observe("logins", 1)
}

func (p *shopper) sameSet(key, what string, got, want []string) {
	g, w := append([]string{}, got...), append([]string{}, want...)
	sort.Strings(g)
	sort.Strings(w)
	if strings.Join(g, ",") != strings.Join(w, ",") {
		p.bad(key, "%s: %v instead of %v", what, g, w)
	}
}

const badHex = "zz"

// owner returns an account, and the user id to give.
func (p *shopper) owner() (*account, string) {
	a := p.account()
	if a == nil || p.r.Intn(4) == 0 {
		if p.r.Intn(3) == 0 {
			return nil, badHex
		}
		return nil, ""
	}
	return a, a.id
}

func (p *shopper) postAddress() {
	a, uid := p.owner()
	x := user.Address{Street: p.uniq("st"), Number: fmt.Sprint(p.r.Intn(99)), Country: p.uniq("c"), City: p.uniq("t"), PostCode: p.uniq("p")}
	p.note("PostAddress(%q,%s)", uid, x.Street)
	id, err := p.s.front.PostAddress(ctx, uid, x)
	if (uid == badHex) != (err != nil) {
		p.bad("user/post-address", "PostAddress(%q) returned %v", uid, err)
		return
	}
	if err != nil {
		return
	}
	if _, dup := p.addrs[id]; dup || id == "" {
		p.bad("user/post-address", "PostAddress returned id %q, which is empty or in use", id)
	}
	x.ID = id
	p.addrs[id] = x
	if a != nil {
		a.addrs = append(a.addrs, id)
	}
}

func (p *shopper) postCard() {
	a, uid := p.owner()
	x := user.Card{LongNum: strings.Repeat("7", p.r.Intn(4)) + fmt.Sprint(1000+p.r.Intn(8999))[:1+p.r.Intn(4)], Expires: p.uniq("e"), CCV: fmt.Sprint(p.r.Intn(999))}
	if p.r.Intn(6) == 0 {
		x.LongNum = ""
	}
	p.note("PostCard(%q,%s)", uid, x.LongNum)
	id, err := p.s.front.PostCard(ctx, uid, x)
	if (uid == badHex) != (err != nil) {
		p.bad("user/post-card", "PostCard(%q) returned %v", uid, err)
		return
	}
	if err != nil {
		return
	}
	if _, dup := p.cards[id]; dup || id == "" {
		p.bad("user/post-card", "PostCard returned id %q, which is empty or in use", id)
	}
	x.ID = id
	p.cards[id] = x
	if a != nil {
		a.cards = append(a.cards, id)
	}
}

const unknownHex = "0123456789abcdef01234567"

func (p *shopper) lookups() {
	if a := p.account(); a != nil {
		u, err := p.s.front.GetUser(ctx, a.id)
		if err != nil || u.UserID != a.id || u.Username != a.name || u.FirstName != a.first || u.LastName != a.last || u.Email != a.email {
			p.bad("user/get", "GetUser of %+v = %+v, %v", *a, u, err)
		}
		var ad, ca []string
		for _, x := range u.Addresses {
			ad = append(ad, x.ID)
		}
		for _, x := range u.Cards {
			ca = append(ca, x.ID)
		}
		p.sameSet("user/get-addresses", "addresses of "+a.name, ad, a.addrs)
		p.sameSet("user/get-cards", "cards of "+a.name, ca, a.cards)
	}
	unknown := []string{unknownHex, "", badHex}
	for _, b := range p.gone {
		unknown = append(unknown, b.id)
	}
	for _, id := range unknown {
		if u, err := p.s.front.GetUser(ctx, id); err == nil {
			p.bad("user/unknown-user", "GetUser(%q), which is no user, returned %+v", id, u)
		}
	}
	if len(p.addrs) > 0 {
		id := pick(p.r, p.addrs)
		if x, err := p.s.front.GetAddress(ctx, id); err != nil || x != p.addrs[id] {
			p.bad("user/get-address", "GetAddress(%s) = %+v, %v instead of %+v", id, x, err, p.addrs[id])
		}
	}
	if len(p.cards) > 0 {
		id := pick(p.r, p.cards)
		if x, err := p.s.front.GetCard(ctx, id); err != nil || x != p.cards[id] {
			p.bad("user/get-card", "GetCard(%s) = %+v, %v instead of %+v", id, x, err, p.cards[id])
		}
	}
	for _, id := range []string{unknownHex, "", badHex} {
		if x, err := p.s.front.GetAddress(ctx, id); err == nil {
			p.bad("user/unknown-address", "GetAddress(%q), which is no address, returned %+v", id, x)
		}
		if x, err := p.s.front.GetCard(ctx, id); err == nil {
			p.bad("user/unknown-card", "GetCard(%q), which is no card, returned %+v", id, x)
		}
	}
	if p.alone {
		us, err := p.s.users.GetUsers(ctx, "")
		var got, want []string
		for _, u := range us {
			got = append(got, u.UserID)
		}
		for _, a := range p.accounts {
			want = append(want, a.id)
		}
		if err != nil {
			p.bad("user/all", "GetUsers: %v", err)
		}
		p.sameSet("user/all", "all users", got, want)
		as, err1 := p.s.users.GetAddresses(ctx, "")
		cs, err2 := p.s.users.GetCards(ctx, "")
		if err1 != nil || err2 != nil {
			p.bad("user/all", "GetAddresses: %v, GetCards: %v", err1, err2)
		}
		got = nil
		for _, x := range as {
			got = append(got, x.ID)
		}
		p.sameSet("user/all-addresses", "all addresses", got, keys(p.addrs))
		got = nil
		for _, x := range cs {
			got = append(got, x.ID)
		}
		p.sameSet("user/all-cards", "all cards", got, keys(p.cards))
	}
	h.Observe("lookups", 1)
}

func (p *shopper) deleteSomething() {
	a := p.account()
	if a == nil {
		return
	}
	switch p.r.Intn(4) {
	case 0:
		p.note("Delete(customers,%s)", a.id)
		if err := p.s.users.Delete(ctx, "customers", a.id); err != nil {
			p.bad("user/delete", "Delete(customers, %s): %v", a.id, err)
		}
		for i := range p.accounts {
			if p.accounts[i] == a {
				p.accounts = append(p.accounts[:i], p.accounts[i+1:]...)
				break
			}
		}
		p.gone = append(p.gone, a)
		for _, id := range a.addrs {
			delete(p.addrs, id)
		}
		for _, id := range a.cards {
			delete(p.cards, id)
		}
	case 1:
		if len(a.addrs) > 0 {
			i := p.r.Intn(len(a.addrs))
			p.note("Delete(addresses,%s)", a.addrs[i])
			if err := p.s.users.Delete(ctx, "addresses", a.addrs[i]); err != nil {
				p.bad("user/delete", "Delete(addresses): %v", err)
			}
			delete(p.addrs, a.addrs[i])
			a.addrs = append(a.addrs[:i:i], a.addrs[i+1:]...)
		}
	case 2:
		if len(a.cards) > 0 {
			i := p.r.Intn(len(a.cards))
			p.note("Delete(cards,%s)", a.cards[i])
			if err := p.s.users.Delete(ctx, "cards", a.cards[i]); err != nil {
				p.bad("user/delete", "Delete(cards): %v", err)
			}
			delete(p.cards, a.cards[i])
			a.cards = append(a.cards[:i:i], a.cards[i+1:]...)
		}
	case 3:
		if err := p.s.users.Delete(ctx, "nonsense", a.id); err == nil {
			p.bad("user/delete", "Delete of an unknown entity succeeded")
		}
	}
	p.lookups()
}

func (p *shopper) newOrder() {
	r := p.r
	a := p.account()
	if a == nil || len(p.addrs) == 0 || len(p.cards) == 0 {
		return
	}
	uid, addr, card, cid := a.id, pick(r, p.addrs), pick(r, p.cards), a.id
	if r.Intn(4) == 0 {
		cid = p.session()
	}
	why := ""
	switch r.Intn(14) {
	case 0:
		uid, why = "", "no user"
	case 1:
		addr, why = "", "no address"
	case 2:
		card, why = "", "no card"
	case 3:
		cid, why = "", "no cart"
	case 4:
		uid, why = unknownHex, "unknown user"
		if len(p.gone) > 0 {
			uid = p.gone[r.Intn(len(p.gone))].id
		}
	case 5:
		addr, why = unknownHex, "unknown address"
	case 6:
		card, why = unknownHex, "unknown card"
	case 7:
		cid, why = p.uniq("sess"), "empty cart"
	case 8:
		p.s.newFail.Store(p.alone)
		if p.alone {
			why = "no shipping"
		}
	}
	if why == "" && r.Intn(3) > 0 && len(p.carts[cid]) == 0 && len(p.socks) > 0 {
		it := pick(r, p.socks)
		p.note("(AddItem(%s,%s))", cid, it)
		if _, err := p.s.front.AddItem(ctx, cid, it); err != nil {
			p.bad("frontend/additem", "AddItem(%s,%s): %v", cid, it, err)
		}
		p.add(cid, it, 1, p.socks[it].Price)
	}
	c := p.carts[cid]
	if len(c) == 0 && why == "" {
		why = "empty cart"
	}
	// what the order costs, at the prices in the cart (read back, since the price of an added item may be either)
	items, _ := p.s.carts.GetCart(ctx, cid)
	total := 4.99
	for _, it := range items {
		total += float64(it.Quantity) * float64(it.UnitPrice)
	}
	near := math.Abs(total-float64(p.s.limit)) < 0.01
	if why == "" && total > float64(p.s.limit) {
		why = "over the limit"
	}
	p.note("NewOrder(%q,%q,%q,%q) %s total %.2f", uid, addr, card, cid, why, total)
	o, err := p.s.front.NewOrder(ctx, uid, addr, card, cid)
	p.s.newFail.Store(false)
	if near && (why == "" || why == "over the limit") {
		why = ""
		if err != nil {
			why = "near the limit"
		}
	}
	if (why == "") != (err == nil) {
		p.bad("order/accept", "NewOrder(%q,%q,%q,%q) of %.2f with limit %.2f (%s) returned %v", uid, addr, card, cid, total, p.s.limit, why, err)
		return
	}
	if err != nil {
		if cid != "" {
			p.checkCart(cid)
		}
		h.Observe("orders_rejected", 1)
	} else {
		if d := p.diffCart(cid, o.Items); d != "" {
			p.bad("order/items", "the order's items are %+v, but in the cart %s", o.Items, d)
		}
		if math.Abs(float64(o.Total)-total) > 0.01 {
			p.bad("order/total", "the total of order %+v is %v instead of %.2f", o.Items, o.Total, total)
		}
		if o.CustomerID != uid || o.Address != p.addrs[addr] || o.Card != p.cards[card] || o.Shipment.ID == "" || o.Shipment.Name != uid || o.ID == "" {
			p.bad("order/details", "order by %s of address %+v card %+v is %+v", uid, p.addrs[addr], p.cards[card], o)
		}
		for _, q := range p.orders {
			if q.o.ID == o.ID {
				p.bad("order/id", "two orders got the id %s", o.ID)
			}
		}
		p.orders = append(p.orders, placed{o, uid, len(p.orders)})
		delete(p.carts, cid)
		p.checkCart(cid)
		p.checkCart(uid)
		h.Observe("orders_placed", 1)
	}
	p.readOrders()
}

func orderText(o order.Order) string {
	o.Shipment.Status = ""
	return fmt.Sprintf("%+v", o)
}

func (p *shopper) readOrders() {
	if len(p.orders) > 0 {
		q := p.orders[p.r.Intn(len(p.orders))]
		o, err := p.s.front.GetOrder(ctx, q.o.ID)
		if err != nil || orderText(o) != orderText(q.o) {
			p.bad("order/get", "GetOrder(%s) = %+v, %v instead of %+v", q.o.ID, o, err, q.o)
		}
	}
	if o, err := p.s.front.GetOrder(ctx, "nosuchorder"); err == nil {
		p.bad("order/unknown", "GetOrder of an unknown order returned %+v", o)
	}
	a := p.account()
	if a == nil {
		return
	}
	os, err := p.s.front.GetOrders(ctx, a.id)
	if err != nil {
		p.bad("order/list", "GetOrders(%s): %v", a.id, err)
	}
	var got, want []string
	for _, o := range os {
		got = append(got, orderText(o))
	}
	for _, q := range p.orders {
		if q.customer == a.id {
			want = append(want, orderText(q.o))
		}
	}
	if strings.Join(got, "\n") != strings.Join(want, "\n") {
		p.bad("order/list", "GetOrders(%s), oldest first:\n%s\ninstead of\n%s", a.id, strings.Join(got, "\n"), strings.Join(want, "\n"))
	}
}

var tagPool = []string{"brown", "geek", "formal", "blue", "skin", "red", "a b", "it's", "ünï", "100%", "x_y", "BLUE"}

func (p *shopper) someTags(max int) []string {
	n := p.r.Intn(max + 1)
	var out []string
	for _, i := range p.r.Perm(len(tagPool))[:n] {
		out = append(out, tagPool[i])
	}
	return out
}

func (p *shopper) newSock() catalogue.Sock {
	return catalogue.Sock{Name: fmt.Sprintf("n%d", p.r.Intn(1000)), Description: p.uniq("d") + "'\"%;--", ImageURL_1: p.uniq("i"), ImageURL_2: p.uniq("j"),
		Price: float32(p.r.Intn(20000)) / 128, Quantity: p.r.Intn(500), Tags: p.someTags(4)}
}

func (p *shopper) addSock(s catalogue.Sock) {
	p.note("AddSock(%s,%v)", s.ID, s.Tags)
	id, err := p.s.cat.AddSock(ctx, s)
	if err != nil || id == "" || (s.ID != "" && s.ID != id) {
		p.bad("catalogue/add", "AddSock(%+v) = %q, %v", s, id, err)
		return
	}
	if _, dup := p.socks[id]; dup && s.ID == "" {
		p.bad("catalogue/add", "AddSock generated an id that is in use")
	}
	s.ID = id
	p.socks[id] = s
	for _, t := range s.Tags {
		p.tags[t] = true
	}
}

func (p *shopper) catalogue() {
	r := p.r
	switch k := r.Intn(10); {
	case k < 2 || len(p.socks) < 3:
		p.addSock(p.newSock())
	case k < 4:
		s := p.newSock()
		s.ID = p.uniq("id")
		if r.Intn(2) == 0 {
			s.ID = pick(r, p.socks)
		}
		p.addSock(s)
	case k < 5:
		id := p.sock()
		p.note("DeleteSock(%s)", id)
		if err := p.s.cat.DeleteSock(ctx, id); err != nil {
			p.bad("catalogue/delete", "DeleteSock(%s): %v", id, err)
		}
		delete(p.socks, id)
	case k < 6:
		t := p.someTags(3)
		p.note("AddTags(%v)", t)
		if err := p.s.cat.AddTags(ctx, t); err != nil {
			p.bad("catalogue/addtags", "AddTags(%v): %v", t, err)
		}
		for _, x := range t {
			p.tags[x] = true
		}
		got, err := p.s.front.ListTags(ctx)
		if err != nil {
			p.bad("catalogue/tags", "Tags: %v", err)
		}
		p.sameSet("catalogue/tags", "tags", got, keys(p.tags))
	default:
		p.list()
	}
}

// sameSock compares what the catalogue returned with what was put there.
func sameSock(got, want catalogue.Sock) bool {
	g, w := append([]string{}, got.Tags...), append([]string{}, want.Tags...)
	sort.Strings(g)
	sort.Strings(w)
	return got.ID == want.ID && got.Name == want.Name && got.Description == want.Description && got.Price == want.Price && got.Quantity == want.Quantity &&
		strings.Join(got.ImageURL, "|") == want.ImageURL_1+"|"+want.ImageURL_2 && strings.Join(g, "|") == strings.Join(w, "|")
}

func (p *shopper) list() {
	r := p.r
	id := p.sock()
	s, err := p.s.front.GetSock(ctx, id)
	if w, ok := p.socks[id]; ok != (err == nil) || (ok && !sameSock(s, w)) {
		p.bad("catalogue/get", "GetSock(%s) = %+v, %v; the catalogue has it: %v: %+v", id, s, err, ok, w)
	}
	tags := p.someTags(3)
	want := map[string]bool{}
	for id, s := range p.socks {
		ok := len(tags) == 0
		for _, t := range s.Tags {
			for _, u := range tags {
				ok = ok || t == u
			}
		}
		if ok {
			want[id] = true
		}
	}
	if n, err := p.s.cat.Count(ctx, tags); err != nil || n != len(want) {
		p.bad("catalogue/count", "Count(%v) = %d, %v instead of %d", tags, n, err, len(want))
	}
	order := []string{"", "", "name", "price", "quantity", "sock_id", "description"}[r.Intn(7)]
	size := 1 + r.Intn(5)
	if r.Intn(3) == 0 {
		size = 1000
	}
	p.note("List(%v,%q,_,%d)", tags, order, size)
	var got []catalogue.Sock
	for page := 1; ; page++ {
		var l []catalogue.Sock
		if pan := hx.Catch(func() { l, err = p.s.front.ListItems(ctx, tags, order, page, size) }); pan != "" || err != nil {
			p.bad("catalogue/list", "ListItems(%v,%q,%d,%d): %v %s", tags, order, page, size, err, pan)
			return
		}
		full := len(want) - (page-1)*size
		if full > size {
			full = size
		} else if full < 0 {
			full = 0
		}
		if len(l) != full {
			p.bad("catalogue/page", "page %d of %d socks, %d a page, has %d socks", page, len(want), size, len(l))
			return
		}
		got = append(got, l...)
		if full == 0 {
			break
		}
	}
	seen := map[string]bool{}
	for i, s := range got {
		if !want[s.ID] || seen[s.ID] || !sameSock(s, p.socks[s.ID]) {
			p.bad("catalogue/list", "the pages of List(%v,%q) contain %+v, which is not expected there (repeated: %v; stored: %+v)", tags, order, s, seen[s.ID], p.socks[s.ID])
			return
		}
		seen[s.ID] = true
		if i > 0 && !ordered(order, got[i-1], s) {
			p.bad("catalogue/order", "List(%v,%q) has %+v before %+v", tags, order, got[i-1], s)
			return
		}
	}
	for _, bad := range [][2]int{{0, 5}, {3, 0}, {-1, 5}, {2, -3}, {1000000, 5}} {
		var l []catalogue.Sock
		if pan := hx.Catch(func() { l, err = p.s.front.ListItems(ctx, tags, order, bad[0], bad[1]) }); pan != "" || len(l) > 0 {
			p.bad("catalogue/page", "page %d of size %d: %d socks %s", bad[0], bad[1], len(l), pan)
		}
	}
	h.Observe("listings", 1)
}

func ordered(by string, a, b catalogue.Sock) bool {
	switch by {
	case "name":
		return a.Name <= b.Name
	case "price":
		return a.Price <= b.Price
	case "quantity":
		return a.Quantity <= b.Quantity
	case "sock_id":
		return a.ID <= b.ID
	case "description":
		return a.Description <= b.Description
	}
	return true
}

func (p *shopper) final() {
	for id := range p.carts {
		p.checkCart(id)
	}
	p.lookups()
	for range p.accounts {
		p.readOrders()
	}
}

func main() {
	h = hx.New()
	h.Rule = "a run of requests against one shop; distinct by seed, non-trivial when an order was placed"
	if h.Part("sequential") {
		for i := 0; i < h.N(120, 3000); i++ {
			r := h.Rand(int64(i))
			s := newShop(float32(20 + r.Intn(800)))
			p := newShopper(s, r, "", true)
			for j := 0; j < 2+r.Intn(6); j++ {
				p.addSock(p.newSock())
			}
			n := 40 + r.Intn(260)
			for j := 0; j < n && !p.failed; j++ {
				if pan := hx.Catch(p.step); pan != "" {
					p.bad("panic", "%s", pan)
				}
				h.Observe("requests", 1)
			}
			if !p.failed {
				p.final()
			}
			s.finish(p.ids(), "sequential", p.log)
			h.Case(fmt.Sprint("s", i), len(p.orders) > 0)
			if i < 2 {
				h.Sample(map[string]any{"requests": p.log[:min(25, len(p.log))]})
			}
		}
	}
	if h.Part("concurrent") {
		for i := 0; i < h.N(20, 300); i++ {
			r := h.Rand(100000 + int64(i))
			s := newShop(float32(20 + r.Intn(800)))
			if i%10 == 0 {
				left := 4 // each failure makes the queue master wait for a second
				s.ship.updFail = func() int {
					n := min(left, 1+left%2)
					left -= n
					return n
				}
			}
			base := newShopper(s, r, "", true)
			for j := 0; j < 5; j++ {
				base.addSock(base.newSock())
			}
			var ps []*shopper
			var wg sync.WaitGroup
			for k := 0; k < 6; k++ {
				p := newShopper(s, h.Rand(200000+int64(i*10+k)), fmt.Sprintf("c%d", k), false)
				p.socks, p.tags = base.socks, base.tags
				ps = append(ps, p)
				wg.Add(1)
				go func() {
					defer wg.Done()
					for j := 0; j < 80 && !p.failed; j++ {
						if pan := hx.Catch(p.step); pan != "" {
							p.bad("panic", "%s", pan)
						}
						h.Observe("requests_concurrent", 1)
					}
				}()
			}
			wg.Wait()
			all := map[string]string{}
			for _, p := range ps {
				if !p.failed {
					p.final()
				}
				for id, c := range p.ids() {
					if all[id] != "" {
						p.bad("order/id", "two customers got the same order id")
					}
					all[id] = c
				}
			}
			s.finish(all, "concurrent", nil)
			h.Case(fmt.Sprint("c", i), len(all) > 0)
		}
	}
	if h.Part("payment") {
		r := h.Rand(7)
		for i := 0; i < h.N(300, 20000); i++ {
			limit := float32(r.Intn(100000)) / 64
			if i%5 == 0 {
				limit = float32(r.Intn(3))
			}
			s := must(payment.NewPaymentService(ctx, fmt.Sprint(limit)))
			for _, a := range []float32{0, -1, float32(math.Inf(-1)), float32(math.Inf(1)), limit, math.Nextafter32(limit, 1e9), math.Nextafter32(limit, -1), math.SmallestNonzeroFloat32,
				-math.SmallestNonzeroFloat32, float32(r.Intn(200000)) / 64, -limit} {
				g, err := s.Authorise(ctx, a)
				want := a > 0 && a <= limit
				if (err == nil && g.Authorised) != want {
					h.Violatef("payment/authorise", map[string]any{"limit": limit, "amount": a}, "Authorise(%v) with limit %v = %+v, %v", a, limit, g, err)
				}
				h.Observe("payments", 1)
			}
			h.Case(fmt.Sprint("p", limit), true)
		}
		for _, bad := range []string{"", "abc", "12x", "1,5"} {
			if _, err := payment.NewPaymentService(ctx, bad); err == nil {
				h.Violatef("payment/config", bad, "NewPaymentService accepted the limit %q", bad)
			}
		}
	}
	h.Done()
}

func (p *shopper) ids() map[string]string {
	m := map[string]string{}
	for _, q := range p.orders {
		m[q.o.ID] = q.customer
	}
	return m
}
