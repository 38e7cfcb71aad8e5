// protoc-gen-go-grpc: stands in for google.golang.org/grpc/cmd/protoc-gen-go-grpc, which is not in the module cache.
// It generates the same API for unary methods, which are the only ones that Blueprint declares.
package main

import (
	"google.golang.org/protobuf/compiler/protogen"
	"google.golang.org/protobuf/types/pluginpb"
)

const (
	ctxPkg    = protogen.GoImportPath("context")
	grpcPkg   = protogen.GoImportPath("google.golang.org/grpc")
	codesPkg  = protogen.GoImportPath("google.golang.org/grpc/codes")
	statusPkg = protogen.GoImportPath("google.golang.org/grpc/status")
)

func main() {
	protogen.Options{}.Run(func(p *protogen.Plugin) error {
		p.SupportedFeatures = uint64(pluginpb.CodeGeneratorResponse_FEATURE_PROTO3_OPTIONAL)
		for _, f := range p.Files {
			if f.Generate && len(f.Services) > 0 {
				gen(p, f)
			}
		}
		return nil
	})
}

func gen(p *protogen.Plugin, f *protogen.File) {
	g := p.NewGeneratedFile(f.GeneratedFilenamePrefix+"_grpc.pb.go", f.GoImportPath)
	g.P("package ", f.GoPackageName)
	ctx := g.QualifiedGoIdent(ctxPkg.Ident("Context"))
	g.P("const _ = ", grpcPkg.Ident("SupportPackageIsVersion7"))
	for _, s := range f.Services {
		n := s.GoName
		g.P("type ", n, "Client interface {")
		for _, m := range s.Methods {
			g.P(m.GoName, "(ctx ", ctx, ", in *", m.Input.GoIdent, ", opts ...", grpcPkg.Ident("CallOption"), ") (*", m.Output.GoIdent, ", error)")
		}
		g.P("}")
		un := "c" + n + "ClientImpl"
		g.P("type ", un, " struct { cc ", grpcPkg.Ident("ClientConnInterface"), " }")
		g.P("func New", n, "Client(cc ", grpcPkg.Ident("ClientConnInterface"), ") ", n, "Client { return &", un, "{cc} }")
		for _, m := range s.Methods {
			g.P("func (c *", un, ") ", m.GoName, "(ctx ", ctx, ", in *", m.Input.GoIdent, ", opts ...", grpcPkg.Ident("CallOption"), ") (*", m.Output.GoIdent, ", error) {")
			g.P("out := new(", m.Output.GoIdent, ")")
			g.P(`err := c.cc.Invoke(ctx, "/`, s.Desc.FullName(), "/", m.Desc.Name(), `", in, out, opts...)`)
			g.P("if err != nil { return nil, err }")
			g.P("return out, nil")
			g.P("}")
		}
		g.P("type ", n, "Server interface {")
		for _, m := range s.Methods {
			g.P(m.GoName, "(", ctx, ", *", m.Input.GoIdent, ") (*", m.Output.GoIdent, ", error)")
		}
		g.P("mustEmbedUnimplemented", n, "Server()")
		g.P("}")
		g.P("type Unimplemented", n, "Server struct {}")
		for _, m := range s.Methods {
			g.P("func (Unimplemented", n, "Server) ", m.GoName, "(", ctx, ", *", m.Input.GoIdent, ") (*", m.Output.GoIdent, ", error) {")
			g.P("return nil, ", statusPkg.Ident("Errorf"), "(", codesPkg.Ident("Unimplemented"), `, "method `, m.GoName, ` not implemented")`)
			g.P("}")
		}
		g.P("func (Unimplemented", n, "Server) mustEmbedUnimplemented", n, "Server() {}")
		g.P("type Unsafe", n, "Server interface { mustEmbedUnimplemented", n, "Server() }")
		g.P("func Register", n, "Server(s ", grpcPkg.Ident("ServiceRegistrar"), ", srv ", n, "Server) { s.RegisterService(&", n, "_ServiceDesc, srv) }")
		for _, m := range s.Methods {
			g.P("func _", n, "_", m.GoName, "_Handler(srv interface{}, ctx ", ctx, ", dec func(interface{}) error, interceptor ", grpcPkg.Ident("UnaryServerInterceptor"), ") (interface{}, error) {")
			g.P("in := new(", m.Input.GoIdent, ")")
			g.P("if err := dec(in); err != nil { return nil, err }")
			g.P("if interceptor == nil { return srv.(", n, "Server).", m.GoName, "(ctx, in) }")
			g.P("info := &", grpcPkg.Ident("UnaryServerInfo"), "{Server: srv, FullMethod: \"/", s.Desc.FullName(), "/", m.Desc.Name(), "\"}")
			g.P("handler := func(ctx ", ctx, ", req interface{}) (interface{}, error) { return srv.(", n, "Server).", m.GoName, "(ctx, req.(*", m.Input.GoIdent, ")) }")
			g.P("return interceptor(ctx, in, info, handler)")
			g.P("}")
		}
		g.P("var ", n, "_ServiceDesc = ", grpcPkg.Ident("ServiceDesc"), "{")
		g.P(`ServiceName: "`, s.Desc.FullName(), `",`)
		g.P("HandlerType: (*", n, "Server)(nil),")
		g.P("Methods: []", grpcPkg.Ident("MethodDesc"), "{")
		for _, m := range s.Methods {
			g.P(`{MethodName: "`, m.Desc.Name(), `", Handler: _`, n, "_", m.GoName, "_Handler},")
		}
		g.P("},")
		g.P("Streams: []", grpcPkg.Ident("StreamDesc"), "{},")
		g.P(`Metadata: "`, f.Desc.Path(), `",`)
		g.P("}")
	}
}
