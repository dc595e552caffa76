// Package endpoint is go-kit's endpoint package.
package endpoint

import "context"

// Endpoint is the building block of servers and clients.
type Endpoint func(ctx context.Context, request interface{}) (response interface{}, err error)

// Middleware is a chainable behaviour modifier for endpoints.
type Middleware func(Endpoint) Endpoint
