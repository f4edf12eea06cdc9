package verifharness

import (
	"context"
	"sync"
	"testing"
	"time"

	d1 "github.com/cybercryptio/d1-lib/v2"
	"github.com/cybercryptio/d1-lib/v2/data"
	"github.com/cybercryptio/d1-lib/v2/id"
	"github.com/cybercryptio/d1-lib/v2/index"
	"github.com/cybercryptio/d1-lib/v2/io"
	"github.com/cybercryptio/d1-lib/v2/key"
)

// A library that lets a call wait for a lock while another call is with a provider cannot be run
// under the simulated clock with overlapping calls: the clock stands still while a goroutine waits
// for a lock. locks finds out whether it does so.

type heldStore struct {
	io.Provider
	mu   sync.Mutex
	skip int // requests that pass first
	hold chan struct{}
	held chan struct{}
}

func (s *heldStore) at() {
	s.mu.Lock()
	h := s.hold
	if s.skip--; s.skip >= 0 {
		h = nil
	} else {
		s.hold = nil
	}
	s.mu.Unlock()
	if h != nil {
		close(s.held)
		<-h
	}
}

func (s *heldStore) Put(ctx context.Context, i []byte, dt io.DataType, b []byte) error {
	s.at()
	return s.Provider.Put(ctx, i, dt, b)
}
func (s *heldStore) Get(ctx context.Context, i []byte, dt io.DataType) ([]byte, error) {
	s.at()
	return s.Provider.Get(ctx, i, dt)
}
func (s *heldStore) Update(ctx context.Context, i []byte, dt io.DataType, b []byte) error {
	s.at()
	return s.Provider.Update(ctx, i, dt, b)
}
func (s *heldStore) Delete(ctx context.Context, i []byte, dt io.DataType) error {
	s.at()
	return s.Provider.Delete(ctx, i, dt)
}

var locks = sync.OnceValue(func() bool {
	var wg sync.WaitGroup
	found := make(chan string, 1000)
	ops := []string{"Encrypt", "Update", "Decrypt", "AddGroups", "RemoveGroups", "Groups", "Delete", "Add", "Search", "DeleteEntry", "GetIdentity", "NewUser", "Login", "ChangePw", "AddUser", "RemoveUser", "NewGroup", "DeleteUser"}
	for n := 0; n < 6*len(ops); n++ {
		op := ops[n/6]
		wg.Add(1)
		go func() {
			defer wg.Done()
			st := &heldStore{Provider: newFStore()}
			ctx := context.Background()
			p, err := id.NewStandalone(idpConfig(1), st)
			if err != nil {
				return
			}
			kp := key.NewStatic(testKeys(5))
			d, err := d1.New(ctx, &kp, st, &p)
			if err != nil {
				return
			}
			ix, err := index.NewSecureIndex(ctx, &kp, st, &p)
			if err != nil {
				return
			}
			uid, pw, err := p.NewUser(ctx, id.ScopeAll)
			if err != nil {
				return
			}
			tok, _, err := p.LoginUser(ctx, uid, pw)
			if err != nil {
				return
			}
			gid, err := p.NewGroup(ctx, tok, id.ScopeAll)
			if err != nil {
				return
			}
			oid, err := d.Encrypt(ctx, tok, &data.Object{Plaintext: []byte("x")}, gid)
			if err != nil {
				return
			}
			call := func() {
				defer func() { _ = recover() }()
				switch op {
				case "Encrypt":
					d.Encrypt(ctx, tok, &data.Object{Plaintext: []byte("y")})
				case "Update":
					d.Update(ctx, tok, oid, &data.Object{Plaintext: []byte("y")})
				case "Decrypt":
					d.Decrypt(ctx, tok, oid)
				case "AddGroups":
					d.AddGroupsToAccess(ctx, tok, oid, gid)
				case "RemoveGroups":
					d.RemoveGroupsFromAccess(ctx, tok, oid, "other")
				case "Groups":
					d.GetAccessGroups(ctx, tok, oid)
				case "Delete":
					d.Delete(ctx, tok, oid)
				case "Add":
					ix.Add(ctx, tok, "k", "i")
				case "Search":
					ix.Search(ctx, tok, "k")
				case "DeleteEntry":
					ix.Delete(ctx, tok, "k", "i")
				case "GetIdentity":
					p.GetIdentity(ctx, tok)
				case "NewUser":
					p.NewUser(ctx)
				case "Login":
					p.LoginUser(ctx, uid, pw)
				case "ChangePw":
					p.ChangeUserPassword(ctx, uid, pw)
				case "AddUser":
					p.AddUserToGroups(ctx, tok, uid, gid)
				case "RemoveUser":
					p.RemoveUserFromGroups(ctx, tok, uid, gid)
				case "NewGroup":
					p.NewGroup(ctx, tok)
				case "DeleteUser":
					p.DeleteUser(ctx, tok, uid)
				}
			}
			hold, held := make(chan struct{}), make(chan struct{})
			st.held, st.hold, st.skip = held, hold, n%6
			first, second := make(chan struct{}), make(chan struct{})
			go func() { defer close(first); call() }()
			select {
			case <-held:
			case <-first: // it asks for nothing
				return
			case <-time.After(10 * time.Second):
				return
			}
			go func() { defer close(second); call() }()
			select {
			case <-second:
			case <-time.After(3 * time.Second):
				found <- op
			}
			close(hold)
			<-first
			<-second
		}()
	}
	wg.Wait()
	return len(found) > 0
})

func TestLocks(t *testing.T) { t.Log(locks()) }
