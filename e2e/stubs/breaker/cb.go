// Package circuitbreaker stands in for github.com/mercari/go-circuitbreaker, which cannot be fetched here.
package circuitbreaker

import (
	"context"
	"errors"
	"sync"
	"time"
)

var ErrOpen = errors.New("circuit breaker open")

type State string

const (
	StateClosed   State = "closed"
	StateOpen     State = "open"
	StateHalfOpen State = "half-open"
)

type Counters struct {
	Successes            int64
	Failures             int64
	ConsecutiveSuccesses int64
	ConsecutiveFailures  int64
}

type TripFunc func(*Counters) bool

func NewTripFuncFailureRate(min int64, rate float64) TripFunc {
	return func(cnt *Counters) bool {
		if cnt.Successes+cnt.Failures < min {
			return false
		}
		return float64(cnt.Failures)/float64(cnt.Successes+cnt.Failures) >= rate
	}
}

func NewTripFuncThreshold(t int64) TripFunc { return func(c *Counters) bool { return c.Failures >= t } }

type BreakerOption func(*CircuitBreaker)

func WithFailOnContextCancel(b bool) BreakerOption { return func(c *CircuitBreaker) { c.onCancel = b } }
func WithFailOnContextDeadline(b bool) BreakerOption {
	return func(c *CircuitBreaker) { c.onDeadline = b }
}
func WithCounterResetInterval(d time.Duration) BreakerOption {
	return func(c *CircuitBreaker) { c.interval = d }
}
func WithTripFunc(f TripFunc) BreakerOption          { return func(c *CircuitBreaker) { c.trip = f } }
func WithOpenTimeout(d time.Duration) BreakerOption  { return func(c *CircuitBreaker) { c.open = d } }
func WithHalfOpenMaxSuccesses(n int64) BreakerOption { return func(c *CircuitBreaker) { c.half = n } }

type CircuitBreaker struct {
	mu                   sync.Mutex
	state                State
	cnt                  Counters
	onCancel, onDeadline bool
	interval, open       time.Duration
	half                 int64
	trip                 TripFunc
	since                time.Time
	reset                time.Time
}

func New(opts ...BreakerOption) *CircuitBreaker {
	c := &CircuitBreaker{state: StateClosed, interval: time.Second, open: 500 * time.Millisecond, half: 4, trip: NewTripFuncThreshold(10)}
	for _, o := range opts {
		o(c)
	}
	c.reset = time.Now()
	return c
}

func (c *CircuitBreaker) tick() {
	now := time.Now()
	if c.state == StateOpen && now.Sub(c.since) >= c.open {
		c.state = StateHalfOpen
		c.cnt = Counters{}
	}
	if c.state == StateClosed && c.interval > 0 && now.Sub(c.reset) >= c.interval {
		c.cnt = Counters{}
		c.reset = now
	}
}

func (c *CircuitBreaker) State() State {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.tick()
	return c.state
}

func (c *CircuitBreaker) Ready() bool { return c.State() != StateOpen }

func (c *CircuitBreaker) Success() {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.tick()
	c.cnt.Successes++
	if c.state == StateHalfOpen && c.cnt.Successes >= c.half {
		c.state = StateClosed
		c.cnt = Counters{}
		c.reset = time.Now()
	}
}

func (c *CircuitBreaker) Fail() {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.tick()
	c.cnt.Failures++
	if c.state == StateHalfOpen || (c.state == StateClosed && c.trip(&c.cnt)) {
		c.state = StateOpen
		c.since = time.Now()
		c.cnt = Counters{}
	}
}

func (c *CircuitBreaker) Done(ctx context.Context, err error) error {
	if err == nil {
		c.Success()
		return nil
	}
	if (!c.onCancel && errors.Is(err, context.Canceled)) || (!c.onDeadline && errors.Is(err, context.DeadlineExceeded)) {
		return err
	}
	c.Fail()
	return err
}

func (c *CircuitBreaker) Do(ctx context.Context, f func() (interface{}, error)) (interface{}, error) {
	if !c.Ready() {
		return nil, ErrOpen
	}
	r, err := f()
	return r, c.Done(ctx, err)
}
