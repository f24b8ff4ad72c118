package conn

import (
	"context"
	"errors"

	"github.com/tetratelabs/wazero"
	"github.com/tetratelabs/wazero/api"

	"github.com/nanobus/iota/go/internal/zzverif/sv"
	"github.com/nanobus/iota/go/transport/wasmrs/host"
)

// runtime stands in for the WebAssembly runtime. It keeps the functions the host offers.
type runtime struct {
	wazero.Runtime
	offered  map[string]func(context.Context, api.Module, []uint64)
	compiled func(source []byte) *guestModule // the guest a file holds, or nil
	closed   bool
}

type builder struct {
	wazero.HostModuleBuilder
	r    *runtime
	name string
}

type functionBuilder struct {
	wazero.HostFunctionBuilder
	b *builder
	f func(context.Context, api.Module, []uint64)
}

type compiled struct {
	wazero.CompiledModule
	m *guestModule
}

var errBad = errors.New("bad module")

func (r *runtime) NewHostModuleBuilder(name string) wazero.HostModuleBuilder {
	return &builder{r: r, name: name}
}

func (r *runtime) CompileModule(_ context.Context, source []byte) (wazero.CompiledModule, error) {
	m := r.compiled(source)
	if m == nil {
		return nil, errBad
	}
	return &compiled{m: m}, nil
}

func (r *runtime) InstantiateModule(ctx context.Context, c wazero.CompiledModule, _ wazero.ModuleConfig) (api.Module, error) {
	m := c.(*compiled).m
	if m.fails {
		return nil, errBad
	}
	m.r, m.ctx = r, ctx
	return m, nil
}

func (r *runtime) Close(context.Context) error {
	r.closed = true
	return nil
}

func (r *runtime) CloseWithExitCode(ctx context.Context, _ uint32) error { return r.Close(ctx) }

func (r *runtime) Module(string) api.Module { return nil }

func (b *builder) NewFunctionBuilder() wazero.HostFunctionBuilder { return &functionBuilder{b: b} }

func (b *builder) Compile(context.Context) (wazero.CompiledModule, error) { return &compiled{}, nil }

func (b *builder) Instantiate(context.Context) (api.Module, error) { return &guestModule{}, nil }

func (f *functionBuilder) WithGoFunction(g api.GoFunction, _, _ []api.ValueType) wazero.HostFunctionBuilder {
	f.f = func(ctx context.Context, _ api.Module, p []uint64) { g.Call(ctx, p) }
	return f
}

func (f *functionBuilder) WithGoModuleFunction(g api.GoModuleFunction, _, _ []api.ValueType) wazero.HostFunctionBuilder {
	f.f = func(ctx context.Context, m api.Module, p []uint64) { g.Call(ctx, m, p) }
	return f
}

func (f *functionBuilder) WithName(string) wazero.HostFunctionBuilder              { return f }
func (f *functionBuilder) WithParameterNames(...string) wazero.HostFunctionBuilder { return f }
func (f *functionBuilder) WithResultNames(...string) wazero.HostFunctionBuilder    { return f }

func (f *functionBuilder) Export(name string) wazero.HostModuleBuilder {
	f.b.r.offered[f.b.name+"."+name] = f.f
	return f.b
}

// runtimeOf makes a host whose runtime finds the given guests.
func runtimeOf(guests func(source []byte) *guestModule) {
	host.VerifRuntime = func() wazero.Runtime {
		return &runtime{offered: map[string]func(context.Context, api.Module, []uint64){}, compiled: guests}
	}
}

// instantiate makes an instance of a guest.
func instantiate(m *guestModule) (*host.Instance, error) {
	runtimeOf(func([]byte) *guestModule { return m })
	ctx := context.Background()
	h, err := host.New(ctx)
	sv.Assert(err == nil, "host")
	c, err := h.Compile(ctx, []byte{0})
	sv.Assert(err == nil, "compile")
	return c.Instantiate(ctx)
}
