package checks

import (
	"errors"
	"fmt"
	"sync"

	"github.com/philippseith/signalr"
)

// mgr14 is a HubLifetimeManager of an application. It is what a server is expected to use for everything which is sent.
type mgr14 struct {
	mx     sync.Mutex
	conns  map[string]signalr.HubConnection
	groups map[string]map[string]signalr.HubConnection
	wrong  []string
	calls  int
}

func newMgr14() *mgr14 {
	return &mgr14{conns: map[string]signalr.HubConnection{}, groups: map[string]map[string]signalr.HubConnection{}}
}

// option installs the manager. fail is a manager which can not be made.
func (m *mgr14) option(fail error) func(signalr.Party) error {
	return signalr.WithHubLifetimeManager(func(s signalr.Server) (signalr.HubLifetimeManager, error) {
		if s == nil {
			return nil, errors.New("no server")
		}
		return m, fail
	})
}

func (m *mgr14) bad(format string, a ...any) { m.wrong = append(m.wrong, fmt.Sprintf(format, a...)) }

func (m *mgr14) OnConnected(c signalr.HubConnection) {
	m.mx.Lock()
	defer m.mx.Unlock()
	if _, ok := m.conns[c.ConnectionID()]; ok {
		m.bad("OnConnected(%q) while it is connected", c.ConnectionID())
	}
	m.conns[c.ConnectionID()] = c
}

func (m *mgr14) OnDisconnected(c signalr.HubConnection) {
	m.mx.Lock()
	defer m.mx.Unlock()
	id := c.ConnectionID()
	if m.conns[id] != c {
		m.bad("OnDisconnected(%q) of a connection which is not connected", id)
	}
	delete(m.conns, id)
	for _, g := range m.groups {
		delete(g, id)
	}
}

func (m *mgr14) send(c signalr.HubConnection, target string, args []any) {
	m.calls++
	go func() { _ = c.SendInvocation("", target, args) }()
}

func (m *mgr14) InvokeAll(target string, args []any) {
	m.mx.Lock()
	defer m.mx.Unlock()
	for _, c := range m.conns {
		m.send(c, target, args)
	}
}

func (m *mgr14) InvokeClient(id, target string, args []any) {
	m.mx.Lock()
	defer m.mx.Unlock()
	if c, ok := m.conns[id]; ok {
		m.send(c, target, args)
	}
}

func (m *mgr14) InvokeGroup(name, target string, args []any) {
	m.mx.Lock()
	defer m.mx.Unlock()
	for _, c := range m.groups[name] {
		m.send(c, target, args)
	}
}

func (m *mgr14) AddToGroup(name, id string) {
	m.mx.Lock()
	defer m.mx.Unlock()
	if c, ok := m.conns[id]; ok {
		if m.groups[name] == nil {
			m.groups[name] = map[string]signalr.HubConnection{}
		}
		m.groups[name][id] = c
	}
}

func (m *mgr14) RemoveFromGroup(name, id string) {
	m.mx.Lock()
	defer m.mx.Unlock()
	delete(m.groups[name], id)
}
