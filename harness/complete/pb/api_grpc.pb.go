package pb

import "context"

type AServer interface {
	A(context.Context, *AReq) (*ARes, error)
	mustEmbedUnimplementedAServer()
}
