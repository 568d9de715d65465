// Code generated by gen_table.py; DO NOT EDIT.

package c12

import (
	"context"

	"github.com/smart-core-os/sc-api/go/traits"
	"google.golang.org/grpc"
	"google.golang.org/protobuf/proto"

	"github.com/smart-core-os/sc-golang/pkg/router"
	"github.com/smart-core-os/sc-golang/pkg/trait/accesspb"
	"github.com/smart-core-os/sc-golang/pkg/trait/airqualitysensorpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/airtemperaturepb"
	"github.com/smart-core-os/sc-golang/pkg/trait/bookingpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/brightnesssensorpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/channelpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/colorpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/countpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/electricpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/emergencypb"
	"github.com/smart-core-os/sc-golang/pkg/trait/energystoragepb"
	"github.com/smart-core-os/sc-golang/pkg/trait/enterleavesensorpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/extendretractpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/fanspeedpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/hailpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/inputselectpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/lightpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/lockunlockpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/metadatapb"
	"github.com/smart-core-os/sc-golang/pkg/trait/meterpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/microphonepb"
	"github.com/smart-core-os/sc-golang/pkg/trait/modepb"
	"github.com/smart-core-os/sc-golang/pkg/trait/motionsensorpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/occupancysensorpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/onoffpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/openclosepb"
	"github.com/smart-core-os/sc-golang/pkg/trait/parentpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/presspb"
	"github.com/smart-core-os/sc-golang/pkg/trait/ptzpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/publicationpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/speakerpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/temperaturepb"
	"github.com/smart-core-os/sc-golang/pkg/trait/vendingpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/wastepb"
)

var services = []*service{
	{
		name: "accesspb.ApiRouter", desc: &traits.AccessApi_ServiceDesc,
		router: func(opts ...router.Option) router.Router { return accesspb.NewApiRouter(opts...) },
		factory: func(f func(string) (any, error)) router.Option {
			return accesspb.WithAccessApiClientFactory(func(n string) (traits.AccessApiClient, error) { return as[traits.AccessApiClient](f(n)) })
		},
		client:   func(cc grpc.ClientConnInterface) any { return traits.NewAccessApiClient(cc) },
		wrap:     func(s any) wrapped { return accesspb.WrapApi(s.(traits.AccessApiServer)) },
		unwrap:   func(w any) any { return w.(interface{ UnwrapServer() traits.AccessApiServer }).UnwrapServer() },
		register: func(r any, s grpc.ServiceRegistrar) { r.(*accesspb.ApiRouter).Register(s) },
		add: func(r any, n string, c any) any {
			return iface(r.(*accesspb.ApiRouter).AddAccessApiClient(n, c.(traits.AccessApiClient)))
		},
		remove: func(r any, n string) any { return iface(r.(*accesspb.ApiRouter).RemoveAccessApiClient(n)) },
		get: func(r any, n string) (any, error) {
			c, err := r.(*accesspb.ApiRouter).GetAccessApiClient(n)
			return iface(c), err
		},
		calls: map[string]call{
			"GetLastAccessAttempt": {req: func() proto.Message { return &traits.GetLastAccessAttemptRequest{} }, unary: func(ctx context.Context, c any, q proto.Message) (proto.Message, error) {
				return msg(c.(traits.AccessApiClient).GetLastAccessAttempt(ctx, q.(*traits.GetLastAccessAttemptRequest)))
			}},
			"PullAccessAttempts": {req: func() proto.Message { return &traits.PullAccessAttemptsRequest{} }, res: func() proto.Message { return &traits.PullAccessAttemptsResponse{} }, open: func(ctx context.Context, c any, q proto.Message) (grpc.ClientStream, error) {
				return open(c.(traits.AccessApiClient).PullAccessAttempts(ctx, q.(*traits.PullAccessAttemptsRequest)))
			}},
		},
	},
	{
		name: "airqualitysensorpb.ApiRouter", desc: &traits.AirQualitySensorApi_ServiceDesc,
		router: func(opts ...router.Option) router.Router { return airqualitysensorpb.NewApiRouter(opts...) },
		factory: func(f func(string) (any, error)) router.Option {
			return airqualitysensorpb.WithAirQualitySensorApiClientFactory(func(n string) (traits.AirQualitySensorApiClient, error) {
				return as[traits.AirQualitySensorApiClient](f(n))
			})
		},
		client: func(cc grpc.ClientConnInterface) any { return traits.NewAirQualitySensorApiClient(cc) },
		wrap:   func(s any) wrapped { return airqualitysensorpb.WrapApi(s.(traits.AirQualitySensorApiServer)) },
		unwrap: func(w any) any {
			return w.(interface {
				UnwrapServer() traits.AirQualitySensorApiServer
			}).UnwrapServer()
		},
		register: func(r any, s grpc.ServiceRegistrar) { r.(*airqualitysensorpb.ApiRouter).Register(s) },
		add: func(r any, n string, c any) any {
			return iface(r.(*airqualitysensorpb.ApiRouter).AddAirQualitySensorApiClient(n, c.(traits.AirQualitySensorApiClient)))
		},
		remove: func(r any, n string) any {
			return iface(r.(*airqualitysensorpb.ApiRouter).RemoveAirQualitySensorApiClient(n))
		},
		get: func(r any, n string) (any, error) {
			c, err := r.(*airqualitysensorpb.ApiRouter).GetAirQualitySensorApiClient(n)
			return iface(c), err
		},
		calls: map[string]call{
			"GetAirQuality": {req: func() proto.Message { return &traits.GetAirQualityRequest{} }, unary: func(ctx context.Context, c any, q proto.Message) (proto.Message, error) {
				return msg(c.(traits.AirQualitySensorApiClient).GetAirQuality(ctx, q.(*traits.GetAirQualityRequest)))
			}},
			"PullAirQuality": {req: func() proto.Message { return &traits.PullAirQualityRequest{} }, res: func() proto.Message { return &traits.PullAirQualityResponse{} }, open: func(ctx context.Context, c any, q proto.Message) (grpc.ClientStream, error) {
				return open(c.(traits.AirQualitySensorApiClient).PullAirQuality(ctx, q.(*traits.PullAirQualityRequest)))
			}},
		},
	},
	{
		name: "airqualitysensorpb.InfoRouter", desc: &traits.AirQualitySensorInfo_ServiceDesc,
		router: func(opts ...router.Option) router.Router { return airqualitysensorpb.NewInfoRouter(opts...) },
		factory: func(f func(string) (any, error)) router.Option {
			return airqualitysensorpb.WithAirQualitySensorInfoClientFactory(func(n string) (traits.AirQualitySensorInfoClient, error) {
				return as[traits.AirQualitySensorInfoClient](f(n))
			})
		},
		client: func(cc grpc.ClientConnInterface) any { return traits.NewAirQualitySensorInfoClient(cc) },
		wrap:   func(s any) wrapped { return airqualitysensorpb.WrapInfo(s.(traits.AirQualitySensorInfoServer)) },
		unwrap: func(w any) any {
			return w.(interface {
				UnwrapServer() traits.AirQualitySensorInfoServer
			}).UnwrapServer()
		},
		register: func(r any, s grpc.ServiceRegistrar) { r.(*airqualitysensorpb.InfoRouter).Register(s) },
		add: func(r any, n string, c any) any {
			return iface(r.(*airqualitysensorpb.InfoRouter).AddAirQualitySensorInfoClient(n, c.(traits.AirQualitySensorInfoClient)))
		},
		remove: func(r any, n string) any {
			return iface(r.(*airqualitysensorpb.InfoRouter).RemoveAirQualitySensorInfoClient(n))
		},
		get: func(r any, n string) (any, error) {
			c, err := r.(*airqualitysensorpb.InfoRouter).GetAirQualitySensorInfoClient(n)
			return iface(c), err
		},
		calls: map[string]call{
			"DescribeAirQuality": {req: func() proto.Message { return &traits.DescribeAirQualityRequest{} }, unary: func(ctx context.Context, c any, q proto.Message) (proto.Message, error) {
				return msg(c.(traits.AirQualitySensorInfoClient).DescribeAirQuality(ctx, q.(*traits.DescribeAirQualityRequest)))
			}},
		},
	},
	{
		name: "airtemperaturepb.ApiRouter", desc: &traits.AirTemperatureApi_ServiceDesc,
		router: func(opts ...router.Option) router.Router { return airtemperaturepb.NewApiRouter(opts...) },
		factory: func(f func(string) (any, error)) router.Option {
			return airtemperaturepb.WithAirTemperatureApiClientFactory(func(n string) (traits.AirTemperatureApiClient, error) {
				return as[traits.AirTemperatureApiClient](f(n))
			})
		},
		client: func(cc grpc.ClientConnInterface) any { return traits.NewAirTemperatureApiClient(cc) },
		wrap:   func(s any) wrapped { return airtemperaturepb.WrapApi(s.(traits.AirTemperatureApiServer)) },
		unwrap: func(w any) any {
			return w.(interface {
				UnwrapServer() traits.AirTemperatureApiServer
			}).UnwrapServer()
		},
		register: func(r any, s grpc.ServiceRegistrar) { r.(*airtemperaturepb.ApiRouter).Register(s) },
		add: func(r any, n string, c any) any {
			return iface(r.(*airtemperaturepb.ApiRouter).AddAirTemperatureApiClient(n, c.(traits.AirTemperatureApiClient)))
		},
		remove: func(r any, n string) any {
			return iface(r.(*airtemperaturepb.ApiRouter).RemoveAirTemperatureApiClient(n))
		},
		get: func(r any, n string) (any, error) {
			c, err := r.(*airtemperaturepb.ApiRouter).GetAirTemperatureApiClient(n)
			return iface(c), err
		},
		calls: map[string]call{
			"GetAirTemperature": {req: func() proto.Message { return &traits.GetAirTemperatureRequest{} }, unary: func(ctx context.Context, c any, q proto.Message) (proto.Message, error) {
				return msg(c.(traits.AirTemperatureApiClient).GetAirTemperature(ctx, q.(*traits.GetAirTemperatureRequest)))
			}},
			"UpdateAirTemperature": {req: func() proto.Message { return &traits.UpdateAirTemperatureRequest{} }, unary: func(ctx context.Context, c any, q proto.Message) (proto.Message, error) {
				return msg(c.(traits.AirTemperatureApiClient).UpdateAirTemperature(ctx, q.(*traits.UpdateAirTemperatureRequest)))
			}},
			"PullAirTemperature": {req: func() proto.Message { return &traits.PullAirTemperatureRequest{} }, res: func() proto.Message { return &traits.PullAirTemperatureResponse{} }, open: func(ctx context.Context, c any, q proto.Message) (grpc.ClientStream, error) {
				return open(c.(traits.AirTemperatureApiClient).PullAirTemperature(ctx, q.(*traits.PullAirTemperatureRequest)))
			}},
		},
	},
	{
		name: "airtemperaturepb.InfoRouter", desc: &traits.AirTemperatureInfo_ServiceDesc,
		router: func(opts ...router.Option) router.Router { return airtemperaturepb.NewInfoRouter(opts...) },
		factory: func(f func(string) (any, error)) router.Option {
			return airtemperaturepb.WithAirTemperatureInfoClientFactory(func(n string) (traits.AirTemperatureInfoClient, error) {
				return as[traits.AirTemperatureInfoClient](f(n))
			})
		},
		client: func(cc grpc.ClientConnInterface) any { return traits.NewAirTemperatureInfoClient(cc) },
		wrap:   func(s any) wrapped { return airtemperaturepb.WrapInfo(s.(traits.AirTemperatureInfoServer)) },
		unwrap: func(w any) any {
			return w.(interface {
				UnwrapServer() traits.AirTemperatureInfoServer
			}).UnwrapServer()
		},
		register: func(r any, s grpc.ServiceRegistrar) { r.(*airtemperaturepb.InfoRouter).Register(s) },
		add: func(r any, n string, c any) any {
			return iface(r.(*airtemperaturepb.InfoRouter).AddAirTemperatureInfoClient(n, c.(traits.AirTemperatureInfoClient)))
		},
		remove: func(r any, n string) any {
			return iface(r.(*airtemperaturepb.InfoRouter).RemoveAirTemperatureInfoClient(n))
		},
		get: func(r any, n string) (any, error) {
			c, err := r.(*airtemperaturepb.InfoRouter).GetAirTemperatureInfoClient(n)
			return iface(c), err
		},
		calls: map[string]call{
			"DescribeAirTemperature": {req: func() proto.Message { return &traits.DescribeAirTemperatureRequest{} }, unary: func(ctx context.Context, c any, q proto.Message) (proto.Message, error) {
				return msg(c.(traits.AirTemperatureInfoClient).DescribeAirTemperature(ctx, q.(*traits.DescribeAirTemperatureRequest)))
			}},
		},
	},
	{
		name: "bookingpb.ApiRouter", desc: &traits.BookingApi_ServiceDesc,
		router: func(opts ...router.Option) router.Router { return bookingpb.NewApiRouter(opts...) },
		factory: func(f func(string) (any, error)) router.Option {
			return bookingpb.WithBookingApiClientFactory(func(n string) (traits.BookingApiClient, error) { return as[traits.BookingApiClient](f(n)) })
		},
		client: func(cc grpc.ClientConnInterface) any { return traits.NewBookingApiClient(cc) },
		wrap:   func(s any) wrapped { return bookingpb.WrapApi(s.(traits.BookingApiServer)) },
		unwrap: func(w any) any {
			return w.(interface {
				UnwrapServer() traits.BookingApiServer
			}).UnwrapServer()
		},
		register: func(r any, s grpc.ServiceRegistrar) { r.(*bookingpb.ApiRouter).Register(s) },
		add: func(r any, n string, c any) any {
			return iface(r.(*bookingpb.ApiRouter).AddBookingApiClient(n, c.(traits.BookingApiClient)))
		},
		remove: func(r any, n string) any { return iface(r.(*bookingpb.ApiRouter).RemoveBookingApiClient(n)) },
		get: func(r any, n string) (any, error) {
			c, err := r.(*bookingpb.ApiRouter).GetBookingApiClient(n)
			return iface(c), err
		},
		calls: map[string]call{
			"ListBookings": {req: func() proto.Message { return &traits.ListBookingsRequest{} }, unary: func(ctx context.Context, c any, q proto.Message) (proto.Message, error) {
				return msg(c.(traits.BookingApiClient).ListBookings(ctx, q.(*traits.ListBookingsRequest)))
			}},
			"CheckInBooking": {req: func() proto.Message { return &traits.CheckInBookingRequest{} }, unary: func(ctx context.Context, c any, q proto.Message) (proto.Message, error) {
				return msg(c.(traits.BookingApiClient).CheckInBooking(ctx, q.(*traits.CheckInBookingRequest)))
			}},
			"CheckOutBooking": {req: func() proto.Message { return &traits.CheckOutBookingRequest{} }, unary: func(ctx context.Context, c any, q proto.Message) (proto.Message, error) {
				return msg(c.(traits.BookingApiClient).CheckOutBooking(ctx, q.(*traits.CheckOutBookingRequest)))
			}},
			"CreateBooking": {req: func() proto.Message { return &traits.CreateBookingRequest{} }, unary: func(ctx context.Context, c any, q proto.Message) (proto.Message, error) {
				return msg(c.(traits.BookingApiClient).CreateBooking(ctx, q.(*traits.CreateBookingRequest)))
			}},
			"UpdateBooking": {req: func() proto.Message { return &traits.UpdateBookingRequest{} }, unary: func(ctx context.Context, c any, q proto.Message) (proto.Message, error) {
				return msg(c.(traits.BookingApiClient).UpdateBooking(ctx, q.(*traits.UpdateBookingRequest)))
			}},
			"PullBookings": {req: func() proto.Message { return &traits.ListBookingsRequest{} }, res: func() proto.Message { return &traits.PullBookingsResponse{} }, open: func(ctx context.Context, c any, q proto.Message) (grpc.ClientStream, error) {
				return open(c.(traits.BookingApiClient).PullBookings(ctx, q.(*traits.ListBookingsRequest)))
			}},
		},
	},
	{
		name: "bookingpb.InfoRouter", desc: &traits.BookingInfo_ServiceDesc,
		router: func(opts ...router.Option) router.Router { return bookingpb.NewInfoRouter(opts...) },
		factory: func(f func(string) (any, error)) router.Option {
			return bookingpb.WithBookingInfoClientFactory(func(n string) (traits.BookingInfoClient, error) { return as[traits.BookingInfoClient](f(n)) })
		},
		client: func(cc grpc.ClientConnInterface) any { return traits.NewBookingInfoClient(cc) },
		wrap:   func(s any) wrapped { return bookingpb.WrapInfo(s.(traits.BookingInfoServer)) },
		unwrap: func(w any) any {
			return w.(interface {
				UnwrapServer() traits.BookingInfoServer
			}).UnwrapServer()
		},
		register: func(r any, s grpc.ServiceRegistrar) { r.(*bookingpb.InfoRouter).Register(s) },
		add: func(r any, n string, c any) any {
			return iface(r.(*bookingpb.InfoRouter).AddBookingInfoClient(n, c.(traits.BookingInfoClient)))
		},
		remove: func(r any, n string) any { return iface(r.(*bookingpb.InfoRouter).RemoveBookingInfoClient(n)) },
		get: func(r any, n string) (any, error) {
			c, err := r.(*bookingpb.InfoRouter).GetBookingInfoClient(n)
			return iface(c), err
		},
		calls: map[string]call{
			"DescribeBooking": {req: func() proto.Message { return &traits.DescribeBookingRequest{} }, unary: func(ctx context.Context, c any, q proto.Message) (proto.Message, error) {
				return msg(c.(traits.BookingInfoClient).DescribeBooking(ctx, q.(*traits.DescribeBookingRequest)))
			}},
		},
	},
	{
		name: "brightnesssensorpb.ApiRouter", desc: &traits.BrightnessSensorApi_ServiceDesc,
		router: func(opts ...router.Option) router.Router { return brightnesssensorpb.NewApiRouter(opts...) },
		factory: func(f func(string) (any, error)) router.Option {
			return brightnesssensorpb.WithBrightnessSensorApiClientFactory(func(n string) (traits.BrightnessSensorApiClient, error) {
				return as[traits.BrightnessSensorApiClient](f(n))
			})
		},
		client: func(cc grpc.ClientConnInterface) any { return traits.NewBrightnessSensorApiClient(cc) },
		wrap:   func(s any) wrapped { return brightnesssensorpb.WrapApi(s.(traits.BrightnessSensorApiServer)) },
		unwrap: func(w any) any {
			return w.(interface {
				UnwrapServer() traits.BrightnessSensorApiServer
			}).UnwrapServer()
		},
		register: func(r any, s grpc.ServiceRegistrar) { r.(*brightnesssensorpb.ApiRouter).Register(s) },
		add: func(r any, n string, c any) any {
			return iface(r.(*brightnesssensorpb.ApiRouter).AddBrightnessSensorApiClient(n, c.(traits.BrightnessSensorApiClient)))
		},
		remove: func(r any, n string) any {
			return iface(r.(*brightnesssensorpb.ApiRouter).RemoveBrightnessSensorApiClient(n))
		},
		get: func(r any, n string) (any, error) {
			c, err := r.(*brightnesssensorpb.ApiRouter).GetBrightnessSensorApiClient(n)
			return iface(c), err
		},
		calls: map[string]call{
			"GetAmbientBrightness": {req: func() proto.Message { return &traits.GetAmbientBrightnessRequest{} }, unary: func(ctx context.Context, c any, q proto.Message) (proto.Message, error) {
				return msg(c.(traits.BrightnessSensorApiClient).GetAmbientBrightness(ctx, q.(*traits.GetAmbientBrightnessRequest)))
			}},
			"PullAmbientBrightness": {req: func() proto.Message { return &traits.PullAmbientBrightnessRequest{} }, res: func() proto.Message { return &traits.PullAmbientBrightnessResponse{} }, open: func(ctx context.Context, c any, q proto.Message) (grpc.ClientStream, error) {
				return open(c.(traits.BrightnessSensorApiClient).PullAmbientBrightness(ctx, q.(*traits.PullAmbientBrightnessRequest)))
			}},
		},
	},
	{
		name: "brightnesssensorpb.InfoRouter", desc: &traits.BrightnessSensorInfo_ServiceDesc,
		router: func(opts ...router.Option) router.Router { return brightnesssensorpb.NewInfoRouter(opts...) },
		factory: func(f func(string) (any, error)) router.Option {
			return brightnesssensorpb.WithBrightnessSensorInfoClientFactory(func(n string) (traits.BrightnessSensorInfoClient, error) {
				return as[traits.BrightnessSensorInfoClient](f(n))
			})
		},
		client: func(cc grpc.ClientConnInterface) any { return traits.NewBrightnessSensorInfoClient(cc) },
		wrap:   func(s any) wrapped { return brightnesssensorpb.WrapInfo(s.(traits.BrightnessSensorInfoServer)) },
		unwrap: func(w any) any {
			return w.(interface {
				UnwrapServer() traits.BrightnessSensorInfoServer
			}).UnwrapServer()
		},
		register: func(r any, s grpc.ServiceRegistrar) { r.(*brightnesssensorpb.InfoRouter).Register(s) },
		add: func(r any, n string, c any) any {
			return iface(r.(*brightnesssensorpb.InfoRouter).AddBrightnessSensorInfoClient(n, c.(traits.BrightnessSensorInfoClient)))
		},
		remove: func(r any, n string) any {
			return iface(r.(*brightnesssensorpb.InfoRouter).RemoveBrightnessSensorInfoClient(n))
		},
		get: func(r any, n string) (any, error) {
			c, err := r.(*brightnesssensorpb.InfoRouter).GetBrightnessSensorInfoClient(n)
			return iface(c), err
		},
		calls: map[string]call{
			"DescribeAmbientBrightness": {req: func() proto.Message { return &traits.DescribeAmbientBrightnessRequest{} }, unary: func(ctx context.Context, c any, q proto.Message) (proto.Message, error) {
				return msg(c.(traits.BrightnessSensorInfoClient).DescribeAmbientBrightness(ctx, q.(*traits.DescribeAmbientBrightnessRequest)))
			}},
		},
	},
	{
		name: "channelpb.ApiRouter", desc: &traits.ChannelApi_ServiceDesc,
		router: func(opts ...router.Option) router.Router { return channelpb.NewApiRouter(opts...) },
		factory: func(f func(string) (any, error)) router.Option {
			return channelpb.WithChannelApiClientFactory(func(n string) (traits.ChannelApiClient, error) { return as[traits.ChannelApiClient](f(n)) })
		},
		client: func(cc grpc.ClientConnInterface) any { return traits.NewChannelApiClient(cc) },
		wrap:   func(s any) wrapped { return channelpb.WrapApi(s.(traits.ChannelApiServer)) },
		unwrap: func(w any) any {
			return w.(interface {
				UnwrapServer() traits.ChannelApiServer
			}).UnwrapServer()
		},
		register: func(r any, s grpc.ServiceRegistrar) { r.(*channelpb.ApiRouter).Register(s) },
		add: func(r any, n string, c any) any {
			return iface(r.(*channelpb.ApiRouter).AddChannelApiClient(n, c.(traits.ChannelApiClient)))
		},
		remove: func(r any, n string) any { return iface(r.(*channelpb.ApiRouter).RemoveChannelApiClient(n)) },
		get: func(r any, n string) (any, error) {
			c, err := r.(*channelpb.ApiRouter).GetChannelApiClient(n)
			return iface(c), err
		},
		calls: map[string]call{
			"GetChosenChannel": {req: func() proto.Message { return &traits.GetChosenChannelRequest{} }, unary: func(ctx context.Context, c any, q proto.Message) (proto.Message, error) {
				return msg(c.(traits.ChannelApiClient).GetChosenChannel(ctx, q.(*traits.GetChosenChannelRequest)))
			}},
			"ChooseChannel": {req: func() proto.Message { return &traits.ChooseChannelRequest{} }, unary: func(ctx context.Context, c any, q proto.Message) (proto.Message, error) {
				return msg(c.(traits.ChannelApiClient).ChooseChannel(ctx, q.(*traits.ChooseChannelRequest)))
			}},
			"AdjustChannel": {req: func() proto.Message { return &traits.AdjustChannelRequest{} }, unary: func(ctx context.Context, c any, q proto.Message) (proto.Message, error) {
				return msg(c.(traits.ChannelApiClient).AdjustChannel(ctx, q.(*traits.AdjustChannelRequest)))
			}},
			"ReturnChannel": {req: func() proto.Message { return &traits.ReturnChannelRequest{} }, unary: func(ctx context.Context, c any, q proto.Message) (proto.Message, error) {
				return msg(c.(traits.ChannelApiClient).ReturnChannel(ctx, q.(*traits.ReturnChannelRequest)))
			}},
			"PullChosenChannel": {req: func() proto.Message { return &traits.PullChosenChannelRequest{} }, res: func() proto.Message { return &traits.PullChosenChannelResponse{} }, open: func(ctx context.Context, c any, q proto.Message) (grpc.ClientStream, error) {
				return open(c.(traits.ChannelApiClient).PullChosenChannel(ctx, q.(*traits.PullChosenChannelRequest)))
			}},
		},
	},
	{
		name: "channelpb.InfoRouter", desc: &traits.ChannelInfo_ServiceDesc,
		router: func(opts ...router.Option) router.Router { return channelpb.NewInfoRouter(opts...) },
		factory: func(f func(string) (any, error)) router.Option {
			return channelpb.WithChannelInfoClientFactory(func(n string) (traits.ChannelInfoClient, error) { return as[traits.ChannelInfoClient](f(n)) })
		},
		client: func(cc grpc.ClientConnInterface) any { return traits.NewChannelInfoClient(cc) },
		wrap:   func(s any) wrapped { return channelpb.WrapInfo(s.(traits.ChannelInfoServer)) },
		unwrap: func(w any) any {
			return w.(interface {
				UnwrapServer() traits.ChannelInfoServer
			}).UnwrapServer()
		},
		register: func(r any, s grpc.ServiceRegistrar) { r.(*channelpb.InfoRouter).Register(s) },
		add: func(r any, n string, c any) any {
			return iface(r.(*channelpb.InfoRouter).AddChannelInfoClient(n, c.(traits.ChannelInfoClient)))
		},
		remove: func(r any, n string) any { return iface(r.(*channelpb.InfoRouter).RemoveChannelInfoClient(n)) },
		get: func(r any, n string) (any, error) {
			c, err := r.(*channelpb.InfoRouter).GetChannelInfoClient(n)
			return iface(c), err
		},
		calls: map[string]call{
			"DescribeChosenChannel": {req: func() proto.Message { return &traits.DescribeChosenChannelRequest{} }, unary: func(ctx context.Context, c any, q proto.Message) (proto.Message, error) {
				return msg(c.(traits.ChannelInfoClient).DescribeChosenChannel(ctx, q.(*traits.DescribeChosenChannelRequest)))
			}},
		},
	},
	{
		name: "colorpb.ApiRouter", desc: &traits.ColorApi_ServiceDesc,
		router: func(opts ...router.Option) router.Router { return colorpb.NewApiRouter(opts...) },
		factory: func(f func(string) (any, error)) router.Option {
			return colorpb.WithColorApiClientFactory(func(n string) (traits.ColorApiClient, error) { return as[traits.ColorApiClient](f(n)) })
		},
		client:   func(cc grpc.ClientConnInterface) any { return traits.NewColorApiClient(cc) },
		wrap:     func(s any) wrapped { return colorpb.WrapApi(s.(traits.ColorApiServer)) },
		unwrap:   func(w any) any { return w.(interface{ UnwrapServer() traits.ColorApiServer }).UnwrapServer() },
		register: func(r any, s grpc.ServiceRegistrar) { r.(*colorpb.ApiRouter).Register(s) },
		add: func(r any, n string, c any) any {
			return iface(r.(*colorpb.ApiRouter).AddColorApiClient(n, c.(traits.ColorApiClient)))
		},
		remove: func(r any, n string) any { return iface(r.(*colorpb.ApiRouter).RemoveColorApiClient(n)) },
		get: func(r any, n string) (any, error) {
			c, err := r.(*colorpb.ApiRouter).GetColorApiClient(n)
			return iface(c), err
		},
		calls: map[string]call{
			"GetColor": {req: func() proto.Message { return &traits.GetColorRequest{} }, unary: func(ctx context.Context, c any, q proto.Message) (proto.Message, error) {
				return msg(c.(traits.ColorApiClient).GetColor(ctx, q.(*traits.GetColorRequest)))
			}},
			"UpdateColor": {req: func() proto.Message { return &traits.UpdateColorRequest{} }, unary: func(ctx context.Context, c any, q proto.Message) (proto.Message, error) {
				return msg(c.(traits.ColorApiClient).UpdateColor(ctx, q.(*traits.UpdateColorRequest)))
			}},
			"PullColor": {req: func() proto.Message { return &traits.PullColorRequest{} }, res: func() proto.Message { return &traits.PullColorResponse{} }, open: func(ctx context.Context, c any, q proto.Message) (grpc.ClientStream, error) {
				return open(c.(traits.ColorApiClient).PullColor(ctx, q.(*traits.PullColorRequest)))
			}},
		},
	},
	{
		name: "colorpb.InfoRouter", desc: &traits.ColorInfo_ServiceDesc,
		router: func(opts ...router.Option) router.Router { return colorpb.NewInfoRouter(opts...) },
		factory: func(f func(string) (any, error)) router.Option {
			return colorpb.WithColorInfoClientFactory(func(n string) (traits.ColorInfoClient, error) { return as[traits.ColorInfoClient](f(n)) })
		},
		client:   func(cc grpc.ClientConnInterface) any { return traits.NewColorInfoClient(cc) },
		wrap:     func(s any) wrapped { return colorpb.WrapInfo(s.(traits.ColorInfoServer)) },
		unwrap:   func(w any) any { return w.(interface{ UnwrapServer() traits.ColorInfoServer }).UnwrapServer() },
		register: func(r any, s grpc.ServiceRegistrar) { r.(*colorpb.InfoRouter).Register(s) },
		add: func(r any, n string, c any) any {
			return iface(r.(*colorpb.InfoRouter).AddColorInfoClient(n, c.(traits.ColorInfoClient)))
		},
		remove: func(r any, n string) any { return iface(r.(*colorpb.InfoRouter).RemoveColorInfoClient(n)) },
		get: func(r any, n string) (any, error) {
			c, err := r.(*colorpb.InfoRouter).GetColorInfoClient(n)
			return iface(c), err
		},
		calls: map[string]call{
			"DescribeColor": {req: func() proto.Message { return &traits.DescribeColorRequest{} }, unary: func(ctx context.Context, c any, q proto.Message) (proto.Message, error) {
				return msg(c.(traits.ColorInfoClient).DescribeColor(ctx, q.(*traits.DescribeColorRequest)))
			}},
		},
	},
	{
		name: "countpb.ApiRouter", desc: &traits.CountApi_ServiceDesc,
		router: func(opts ...router.Option) router.Router { return countpb.NewApiRouter(opts...) },
		factory: func(f func(string) (any, error)) router.Option {
			return countpb.WithCountApiClientFactory(func(n string) (traits.CountApiClient, error) { return as[traits.CountApiClient](f(n)) })
		},
		client:   func(cc grpc.ClientConnInterface) any { return traits.NewCountApiClient(cc) },
		wrap:     func(s any) wrapped { return countpb.WrapApi(s.(traits.CountApiServer)) },
		unwrap:   func(w any) any { return w.(interface{ UnwrapServer() traits.CountApiServer }).UnwrapServer() },
		register: func(r any, s grpc.ServiceRegistrar) { r.(*countpb.ApiRouter).Register(s) },
		add: func(r any, n string, c any) any {
			return iface(r.(*countpb.ApiRouter).AddCountApiClient(n, c.(traits.CountApiClient)))
		},
		remove: func(r any, n string) any { return iface(r.(*countpb.ApiRouter).RemoveCountApiClient(n)) },
		get: func(r any, n string) (any, error) {
			c, err := r.(*countpb.ApiRouter).GetCountApiClient(n)
			return iface(c), err
		},
		calls: map[string]call{
			"GetCount": {req: func() proto.Message { return &traits.GetCountRequest{} }, unary: func(ctx context.Context, c any, q proto.Message) (proto.Message, error) {
				return msg(c.(traits.CountApiClient).GetCount(ctx, q.(*traits.GetCountRequest)))
			}},
			"ResetCount": {req: func() proto.Message { return &traits.ResetCountRequest{} }, unary: func(ctx context.Context, c any, q proto.Message) (proto.Message, error) {
				return msg(c.(traits.CountApiClient).ResetCount(ctx, q.(*traits.ResetCountRequest)))
			}},
			"UpdateCount": {req: func() proto.Message { return &traits.UpdateCountRequest{} }, unary: func(ctx context.Context, c any, q proto.Message) (proto.Message, error) {
				return msg(c.(traits.CountApiClient).UpdateCount(ctx, q.(*traits.UpdateCountRequest)))
			}},
			"PullCounts": {req: func() proto.Message { return &traits.PullCountsRequest{} }, res: func() proto.Message { return &traits.PullCountsResponse{} }, open: func(ctx context.Context, c any, q proto.Message) (grpc.ClientStream, error) {
				return open(c.(traits.CountApiClient).PullCounts(ctx, q.(*traits.PullCountsRequest)))
			}},
		},
	},
	{
		name: "countpb.InfoRouter", desc: &traits.CountInfo_ServiceDesc,
		router: func(opts ...router.Option) router.Router { return countpb.NewInfoRouter(opts...) },
		factory: func(f func(string) (any, error)) router.Option {
			return countpb.WithCountInfoClientFactory(func(n string) (traits.CountInfoClient, error) { return as[traits.CountInfoClient](f(n)) })
		},
		client:   func(cc grpc.ClientConnInterface) any { return traits.NewCountInfoClient(cc) },
		wrap:     func(s any) wrapped { return countpb.WrapInfo(s.(traits.CountInfoServer)) },
		unwrap:   func(w any) any { return w.(interface{ UnwrapServer() traits.CountInfoServer }).UnwrapServer() },
		register: func(r any, s grpc.ServiceRegistrar) { r.(*countpb.InfoRouter).Register(s) },
		add: func(r any, n string, c any) any {
			return iface(r.(*countpb.InfoRouter).AddCountInfoClient(n, c.(traits.CountInfoClient)))
		},
		remove: func(r any, n string) any { return iface(r.(*countpb.InfoRouter).RemoveCountInfoClient(n)) },
		get: func(r any, n string) (any, error) {
			c, err := r.(*countpb.InfoRouter).GetCountInfoClient(n)
			return iface(c), err
		},
		calls: map[string]call{
			"DescribeCount": {req: func() proto.Message { return &traits.DescribeCountRequest{} }, unary: func(ctx context.Context, c any, q proto.Message) (proto.Message, error) {
				return msg(c.(traits.CountInfoClient).DescribeCount(ctx, q.(*traits.DescribeCountRequest)))
			}},
		},
	},
	{
		name: "electricpb.ApiRouter", desc: &traits.ElectricApi_ServiceDesc,
		router: func(opts ...router.Option) router.Router { return electricpb.NewApiRouter(opts...) },
		factory: func(f func(string) (any, error)) router.Option {
			return electricpb.WithElectricApiClientFactory(func(n string) (traits.ElectricApiClient, error) { return as[traits.ElectricApiClient](f(n)) })
		},
		client: func(cc grpc.ClientConnInterface) any { return traits.NewElectricApiClient(cc) },
		wrap:   func(s any) wrapped { return electricpb.WrapApi(s.(traits.ElectricApiServer)) },
		unwrap: func(w any) any {
			return w.(interface {
				UnwrapServer() traits.ElectricApiServer
			}).UnwrapServer()
		},
		register: func(r any, s grpc.ServiceRegistrar) { r.(*electricpb.ApiRouter).Register(s) },
		add: func(r any, n string, c any) any {
			return iface(r.(*electricpb.ApiRouter).AddElectricApiClient(n, c.(traits.ElectricApiClient)))
		},
		remove: func(r any, n string) any { return iface(r.(*electricpb.ApiRouter).RemoveElectricApiClient(n)) },
		get: func(r any, n string) (any, error) {
			c, err := r.(*electricpb.ApiRouter).GetElectricApiClient(n)
			return iface(c), err
		},
		calls: map[string]call{
			"GetDemand": {req: func() proto.Message { return &traits.GetDemandRequest{} }, unary: func(ctx context.Context, c any, q proto.Message) (proto.Message, error) {
				return msg(c.(traits.ElectricApiClient).GetDemand(ctx, q.(*traits.GetDemandRequest)))
			}},
			"PullDemand": {req: func() proto.Message { return &traits.PullDemandRequest{} }, res: func() proto.Message { return &traits.PullDemandResponse{} }, open: func(ctx context.Context, c any, q proto.Message) (grpc.ClientStream, error) {
				return open(c.(traits.ElectricApiClient).PullDemand(ctx, q.(*traits.PullDemandRequest)))
			}},
			"GetActiveMode": {req: func() proto.Message { return &traits.GetActiveModeRequest{} }, unary: func(ctx context.Context, c any, q proto.Message) (proto.Message, error) {
				return msg(c.(traits.ElectricApiClient).GetActiveMode(ctx, q.(*traits.GetActiveModeRequest)))
			}},
			"UpdateActiveMode": {req: func() proto.Message { return &traits.UpdateActiveModeRequest{} }, unary: func(ctx context.Context, c any, q proto.Message) (proto.Message, error) {
				return msg(c.(traits.ElectricApiClient).UpdateActiveMode(ctx, q.(*traits.UpdateActiveModeRequest)))
			}},
			"ClearActiveMode": {req: func() proto.Message { return &traits.ClearActiveModeRequest{} }, unary: func(ctx context.Context, c any, q proto.Message) (proto.Message, error) {
				return msg(c.(traits.ElectricApiClient).ClearActiveMode(ctx, q.(*traits.ClearActiveModeRequest)))
			}},
			"PullActiveMode": {req: func() proto.Message { return &traits.PullActiveModeRequest{} }, res: func() proto.Message { return &traits.PullActiveModeResponse{} }, open: func(ctx context.Context, c any, q proto.Message) (grpc.ClientStream, error) {
				return open(c.(traits.ElectricApiClient).PullActiveMode(ctx, q.(*traits.PullActiveModeRequest)))
			}},
			"ListModes": {req: func() proto.Message { return &traits.ListModesRequest{} }, unary: func(ctx context.Context, c any, q proto.Message) (proto.Message, error) {
				return msg(c.(traits.ElectricApiClient).ListModes(ctx, q.(*traits.ListModesRequest)))
			}},
			"PullModes": {req: func() proto.Message { return &traits.PullModesRequest{} }, res: func() proto.Message { return &traits.PullModesResponse{} }, open: func(ctx context.Context, c any, q proto.Message) (grpc.ClientStream, error) {
				return open(c.(traits.ElectricApiClient).PullModes(ctx, q.(*traits.PullModesRequest)))
			}},
		},
	},
	{
		name: "electricpb.InfoRouter", desc: &traits.ElectricInfo_ServiceDesc,
		router: func(opts ...router.Option) router.Router { return electricpb.NewInfoRouter(opts...) },
		factory: func(f func(string) (any, error)) router.Option {
			return electricpb.WithElectricInfoClientFactory(func(n string) (traits.ElectricInfoClient, error) { return as[traits.ElectricInfoClient](f(n)) })
		},
		client: func(cc grpc.ClientConnInterface) any { return traits.NewElectricInfoClient(cc) },
		wrap:   func(s any) wrapped { return electricpb.WrapInfo(s.(traits.ElectricInfoServer)) },
		unwrap: func(w any) any {
			return w.(interface {
				UnwrapServer() traits.ElectricInfoServer
			}).UnwrapServer()
		},
		register: func(r any, s grpc.ServiceRegistrar) { r.(*electricpb.InfoRouter).Register(s) },
		add: func(r any, n string, c any) any {
			return iface(r.(*electricpb.InfoRouter).AddElectricInfoClient(n, c.(traits.ElectricInfoClient)))
		},
		remove: func(r any, n string) any { return iface(r.(*electricpb.InfoRouter).RemoveElectricInfoClient(n)) },
		get: func(r any, n string) (any, error) {
			c, err := r.(*electricpb.InfoRouter).GetElectricInfoClient(n)
			return iface(c), err
		},
		calls: map[string]call{},
	},
	{
		name: "electricpb.MemorySettingsApiRouter", desc: &electricpb.MemorySettingsApi_ServiceDesc,
		router: func(opts ...router.Option) router.Router { return electricpb.NewMemorySettingsApiRouter(opts...) },
		factory: func(f func(string) (any, error)) router.Option {
			return electricpb.WithMemorySettingsApiClientFactory(func(n string) (electricpb.MemorySettingsApiClient, error) {
				return as[electricpb.MemorySettingsApiClient](f(n))
			})
		},
		client: func(cc grpc.ClientConnInterface) any { return electricpb.NewMemorySettingsApiClient(cc) },
		wrap:   func(s any) wrapped { return electricpb.WrapMemorySettingsApi(s.(electricpb.MemorySettingsApiServer)) },
		unwrap: func(w any) any {
			return w.(interface {
				UnwrapServer() electricpb.MemorySettingsApiServer
			}).UnwrapServer()
		},
		register: func(r any, s grpc.ServiceRegistrar) { r.(*electricpb.MemorySettingsApiRouter).Register(s) },
		add: func(r any, n string, c any) any {
			return iface(r.(*electricpb.MemorySettingsApiRouter).AddMemorySettingsApiClient(n, c.(electricpb.MemorySettingsApiClient)))
		},
		remove: func(r any, n string) any {
			return iface(r.(*electricpb.MemorySettingsApiRouter).RemoveMemorySettingsApiClient(n))
		},
		get: func(r any, n string) (any, error) {
			c, err := r.(*electricpb.MemorySettingsApiRouter).GetMemorySettingsApiClient(n)
			return iface(c), err
		},
		calls: map[string]call{
			"UpdateDemand": {req: func() proto.Message { return &electricpb.UpdateDemandRequest{} }, unary: func(ctx context.Context, c any, q proto.Message) (proto.Message, error) {
				return msg(c.(electricpb.MemorySettingsApiClient).UpdateDemand(ctx, q.(*electricpb.UpdateDemandRequest)))
			}},
			"CreateMode": {req: func() proto.Message { return &electricpb.CreateModeRequest{} }, unary: func(ctx context.Context, c any, q proto.Message) (proto.Message, error) {
				return msg(c.(electricpb.MemorySettingsApiClient).CreateMode(ctx, q.(*electricpb.CreateModeRequest)))
			}},
			"UpdateMode": {req: func() proto.Message { return &electricpb.UpdateModeRequest{} }, unary: func(ctx context.Context, c any, q proto.Message) (proto.Message, error) {
				return msg(c.(electricpb.MemorySettingsApiClient).UpdateMode(ctx, q.(*electricpb.UpdateModeRequest)))
			}},
			"DeleteMode": {req: func() proto.Message { return &electricpb.DeleteModeRequest{} }, unary: func(ctx context.Context, c any, q proto.Message) (proto.Message, error) {
				return msg(c.(electricpb.MemorySettingsApiClient).DeleteMode(ctx, q.(*electricpb.DeleteModeRequest)))
			}},
		},
	},
	{
		name: "emergencypb.ApiRouter", desc: &traits.EmergencyApi_ServiceDesc,
		router: func(opts ...router.Option) router.Router { return emergencypb.NewApiRouter(opts...) },
		factory: func(f func(string) (any, error)) router.Option {
			return emergencypb.WithEmergencyApiClientFactory(func(n string) (traits.EmergencyApiClient, error) { return as[traits.EmergencyApiClient](f(n)) })
		},
		client: func(cc grpc.ClientConnInterface) any { return traits.NewEmergencyApiClient(cc) },
		wrap:   func(s any) wrapped { return emergencypb.WrapApi(s.(traits.EmergencyApiServer)) },
		unwrap: func(w any) any {
			return w.(interface {
				UnwrapServer() traits.EmergencyApiServer
			}).UnwrapServer()
		},
		register: func(r any, s grpc.ServiceRegistrar) { r.(*emergencypb.ApiRouter).Register(s) },
		add: func(r any, n string, c any) any {
			return iface(r.(*emergencypb.ApiRouter).AddEmergencyApiClient(n, c.(traits.EmergencyApiClient)))
		},
		remove: func(r any, n string) any { return iface(r.(*emergencypb.ApiRouter).RemoveEmergencyApiClient(n)) },
		get: func(r any, n string) (any, error) {
			c, err := r.(*emergencypb.ApiRouter).GetEmergencyApiClient(n)
			return iface(c), err
		},
		calls: map[string]call{
			"GetEmergency": {req: func() proto.Message { return &traits.GetEmergencyRequest{} }, unary: func(ctx context.Context, c any, q proto.Message) (proto.Message, error) {
				return msg(c.(traits.EmergencyApiClient).GetEmergency(ctx, q.(*traits.GetEmergencyRequest)))
			}},
			"UpdateEmergency": {req: func() proto.Message { return &traits.UpdateEmergencyRequest{} }, unary: func(ctx context.Context, c any, q proto.Message) (proto.Message, error) {
				return msg(c.(traits.EmergencyApiClient).UpdateEmergency(ctx, q.(*traits.UpdateEmergencyRequest)))
			}},
			"PullEmergency": {req: func() proto.Message { return &traits.PullEmergencyRequest{} }, res: func() proto.Message { return &traits.PullEmergencyResponse{} }, open: func(ctx context.Context, c any, q proto.Message) (grpc.ClientStream, error) {
				return open(c.(traits.EmergencyApiClient).PullEmergency(ctx, q.(*traits.PullEmergencyRequest)))
			}},
		},
	},
	{
		name: "emergencypb.InfoRouter", desc: &traits.EmergencyInfo_ServiceDesc,
		router: func(opts ...router.Option) router.Router { return emergencypb.NewInfoRouter(opts...) },
		factory: func(f func(string) (any, error)) router.Option {
			return emergencypb.WithEmergencyInfoClientFactory(func(n string) (traits.EmergencyInfoClient, error) { return as[traits.EmergencyInfoClient](f(n)) })
		},
		client: func(cc grpc.ClientConnInterface) any { return traits.NewEmergencyInfoClient(cc) },
		wrap:   func(s any) wrapped { return emergencypb.WrapInfo(s.(traits.EmergencyInfoServer)) },
		unwrap: func(w any) any {
			return w.(interface {
				UnwrapServer() traits.EmergencyInfoServer
			}).UnwrapServer()
		},
		register: func(r any, s grpc.ServiceRegistrar) { r.(*emergencypb.InfoRouter).Register(s) },
		add: func(r any, n string, c any) any {
			return iface(r.(*emergencypb.InfoRouter).AddEmergencyInfoClient(n, c.(traits.EmergencyInfoClient)))
		},
		remove: func(r any, n string) any { return iface(r.(*emergencypb.InfoRouter).RemoveEmergencyInfoClient(n)) },
		get: func(r any, n string) (any, error) {
			c, err := r.(*emergencypb.InfoRouter).GetEmergencyInfoClient(n)
			return iface(c), err
		},
		calls: map[string]call{
			"DescribeEmergency": {req: func() proto.Message { return &traits.DescribeEmergencyRequest{} }, unary: func(ctx context.Context, c any, q proto.Message) (proto.Message, error) {
				return msg(c.(traits.EmergencyInfoClient).DescribeEmergency(ctx, q.(*traits.DescribeEmergencyRequest)))
			}},
		},
	},
	{
		name: "energystoragepb.ApiRouter", desc: &traits.EnergyStorageApi_ServiceDesc,
		router: func(opts ...router.Option) router.Router { return energystoragepb.NewApiRouter(opts...) },
		factory: func(f func(string) (any, error)) router.Option {
			return energystoragepb.WithEnergyStorageApiClientFactory(func(n string) (traits.EnergyStorageApiClient, error) { return as[traits.EnergyStorageApiClient](f(n)) })
		},
		client: func(cc grpc.ClientConnInterface) any { return traits.NewEnergyStorageApiClient(cc) },
		wrap:   func(s any) wrapped { return energystoragepb.WrapApi(s.(traits.EnergyStorageApiServer)) },
		unwrap: func(w any) any {
			return w.(interface {
				UnwrapServer() traits.EnergyStorageApiServer
			}).UnwrapServer()
		},
		register: func(r any, s grpc.ServiceRegistrar) { r.(*energystoragepb.ApiRouter).Register(s) },
		add: func(r any, n string, c any) any {
			return iface(r.(*energystoragepb.ApiRouter).AddEnergyStorageApiClient(n, c.(traits.EnergyStorageApiClient)))
		},
		remove: func(r any, n string) any {
			return iface(r.(*energystoragepb.ApiRouter).RemoveEnergyStorageApiClient(n))
		},
		get: func(r any, n string) (any, error) {
			c, err := r.(*energystoragepb.ApiRouter).GetEnergyStorageApiClient(n)
			return iface(c), err
		},
		calls: map[string]call{
			"GetEnergyLevel": {req: func() proto.Message { return &traits.GetEnergyLevelRequest{} }, unary: func(ctx context.Context, c any, q proto.Message) (proto.Message, error) {
				return msg(c.(traits.EnergyStorageApiClient).GetEnergyLevel(ctx, q.(*traits.GetEnergyLevelRequest)))
			}},
			"PullEnergyLevel": {req: func() proto.Message { return &traits.PullEnergyLevelRequest{} }, res: func() proto.Message { return &traits.PullEnergyLevelResponse{} }, open: func(ctx context.Context, c any, q proto.Message) (grpc.ClientStream, error) {
				return open(c.(traits.EnergyStorageApiClient).PullEnergyLevel(ctx, q.(*traits.PullEnergyLevelRequest)))
			}},
			"Charge": {req: func() proto.Message { return &traits.ChargeRequest{} }, unary: func(ctx context.Context, c any, q proto.Message) (proto.Message, error) {
				return msg(c.(traits.EnergyStorageApiClient).Charge(ctx, q.(*traits.ChargeRequest)))
			}},
		},
	},
	{
		name: "energystoragepb.InfoRouter", desc: &traits.EnergyStorageInfo_ServiceDesc,
		router: func(opts ...router.Option) router.Router { return energystoragepb.NewInfoRouter(opts...) },
		factory: func(f func(string) (any, error)) router.Option {
			return energystoragepb.WithEnergyStorageInfoClientFactory(func(n string) (traits.EnergyStorageInfoClient, error) {
				return as[traits.EnergyStorageInfoClient](f(n))
			})
		},
		client: func(cc grpc.ClientConnInterface) any { return traits.NewEnergyStorageInfoClient(cc) },
		wrap:   func(s any) wrapped { return energystoragepb.WrapInfo(s.(traits.EnergyStorageInfoServer)) },
		unwrap: func(w any) any {
			return w.(interface {
				UnwrapServer() traits.EnergyStorageInfoServer
			}).UnwrapServer()
		},
		register: func(r any, s grpc.ServiceRegistrar) { r.(*energystoragepb.InfoRouter).Register(s) },
		add: func(r any, n string, c any) any {
			return iface(r.(*energystoragepb.InfoRouter).AddEnergyStorageInfoClient(n, c.(traits.EnergyStorageInfoClient)))
		},
		remove: func(r any, n string) any {
			return iface(r.(*energystoragepb.InfoRouter).RemoveEnergyStorageInfoClient(n))
		},
		get: func(r any, n string) (any, error) {
			c, err := r.(*energystoragepb.InfoRouter).GetEnergyStorageInfoClient(n)
			return iface(c), err
		},
		calls: map[string]call{
			"DescribeEnergyLevel": {req: func() proto.Message { return &traits.DescribeEnergyLevelRequest{} }, unary: func(ctx context.Context, c any, q proto.Message) (proto.Message, error) {
				return msg(c.(traits.EnergyStorageInfoClient).DescribeEnergyLevel(ctx, q.(*traits.DescribeEnergyLevelRequest)))
			}},
		},
	},
	{
		name: "enterleavesensorpb.ApiRouter", desc: &traits.EnterLeaveSensorApi_ServiceDesc,
		router: func(opts ...router.Option) router.Router { return enterleavesensorpb.NewApiRouter(opts...) },
		factory: func(f func(string) (any, error)) router.Option {
			return enterleavesensorpb.WithEnterLeaveSensorApiClientFactory(func(n string) (traits.EnterLeaveSensorApiClient, error) {
				return as[traits.EnterLeaveSensorApiClient](f(n))
			})
		},
		client: func(cc grpc.ClientConnInterface) any { return traits.NewEnterLeaveSensorApiClient(cc) },
		wrap:   func(s any) wrapped { return enterleavesensorpb.WrapApi(s.(traits.EnterLeaveSensorApiServer)) },
		unwrap: func(w any) any {
			return w.(interface {
				UnwrapServer() traits.EnterLeaveSensorApiServer
			}).UnwrapServer()
		},
		register: func(r any, s grpc.ServiceRegistrar) { r.(*enterleavesensorpb.ApiRouter).Register(s) },
		add: func(r any, n string, c any) any {
			return iface(r.(*enterleavesensorpb.ApiRouter).AddEnterLeaveSensorApiClient(n, c.(traits.EnterLeaveSensorApiClient)))
		},
		remove: func(r any, n string) any {
			return iface(r.(*enterleavesensorpb.ApiRouter).RemoveEnterLeaveSensorApiClient(n))
		},
		get: func(r any, n string) (any, error) {
			c, err := r.(*enterleavesensorpb.ApiRouter).GetEnterLeaveSensorApiClient(n)
			return iface(c), err
		},
		calls: map[string]call{
			"PullEnterLeaveEvents": {req: func() proto.Message { return &traits.PullEnterLeaveEventsRequest{} }, res: func() proto.Message { return &traits.PullEnterLeaveEventsResponse{} }, open: func(ctx context.Context, c any, q proto.Message) (grpc.ClientStream, error) {
				return open(c.(traits.EnterLeaveSensorApiClient).PullEnterLeaveEvents(ctx, q.(*traits.PullEnterLeaveEventsRequest)))
			}},
			"GetEnterLeaveEvent": {req: func() proto.Message { return &traits.GetEnterLeaveEventRequest{} }, unary: func(ctx context.Context, c any, q proto.Message) (proto.Message, error) {
				return msg(c.(traits.EnterLeaveSensorApiClient).GetEnterLeaveEvent(ctx, q.(*traits.GetEnterLeaveEventRequest)))
			}},
			"ResetEnterLeaveTotals": {req: func() proto.Message { return &traits.ResetEnterLeaveTotalsRequest{} }, unary: func(ctx context.Context, c any, q proto.Message) (proto.Message, error) {
				return msg(c.(traits.EnterLeaveSensorApiClient).ResetEnterLeaveTotals(ctx, q.(*traits.ResetEnterLeaveTotalsRequest)))
			}},
		},
	},
	{
		name: "enterleavesensorpb.InfoRouter", desc: &traits.EnterLeaveSensorInfo_ServiceDesc,
		router: func(opts ...router.Option) router.Router { return enterleavesensorpb.NewInfoRouter(opts...) },
		factory: func(f func(string) (any, error)) router.Option {
			return enterleavesensorpb.WithEnterLeaveSensorInfoClientFactory(func(n string) (traits.EnterLeaveSensorInfoClient, error) {
				return as[traits.EnterLeaveSensorInfoClient](f(n))
			})
		},
		client: func(cc grpc.ClientConnInterface) any { return traits.NewEnterLeaveSensorInfoClient(cc) },
		wrap:   func(s any) wrapped { return enterleavesensorpb.WrapInfo(s.(traits.EnterLeaveSensorInfoServer)) },
		unwrap: func(w any) any {
			return w.(interface {
				UnwrapServer() traits.EnterLeaveSensorInfoServer
			}).UnwrapServer()
		},
		register: func(r any, s grpc.ServiceRegistrar) { r.(*enterleavesensorpb.InfoRouter).Register(s) },
		add: func(r any, n string, c any) any {
			return iface(r.(*enterleavesensorpb.InfoRouter).AddEnterLeaveSensorInfoClient(n, c.(traits.EnterLeaveSensorInfoClient)))
		},
		remove: func(r any, n string) any {
			return iface(r.(*enterleavesensorpb.InfoRouter).RemoveEnterLeaveSensorInfoClient(n))
		},
		get: func(r any, n string) (any, error) {
			c, err := r.(*enterleavesensorpb.InfoRouter).GetEnterLeaveSensorInfoClient(n)
			return iface(c), err
		},
		calls: map[string]call{},
	},
	{
		name: "extendretractpb.ApiRouter", desc: &traits.ExtendRetractApi_ServiceDesc,
		router: func(opts ...router.Option) router.Router { return extendretractpb.NewApiRouter(opts...) },
		factory: func(f func(string) (any, error)) router.Option {
			return extendretractpb.WithExtendRetractApiClientFactory(func(n string) (traits.ExtendRetractApiClient, error) { return as[traits.ExtendRetractApiClient](f(n)) })
		},
		client: func(cc grpc.ClientConnInterface) any { return traits.NewExtendRetractApiClient(cc) },
		wrap:   func(s any) wrapped { return extendretractpb.WrapApi(s.(traits.ExtendRetractApiServer)) },
		unwrap: func(w any) any {
			return w.(interface {
				UnwrapServer() traits.ExtendRetractApiServer
			}).UnwrapServer()
		},
		register: func(r any, s grpc.ServiceRegistrar) { r.(*extendretractpb.ApiRouter).Register(s) },
		add: func(r any, n string, c any) any {
			return iface(r.(*extendretractpb.ApiRouter).AddExtendRetractApiClient(n, c.(traits.ExtendRetractApiClient)))
		},
		remove: func(r any, n string) any {
			return iface(r.(*extendretractpb.ApiRouter).RemoveExtendRetractApiClient(n))
		},
		get: func(r any, n string) (any, error) {
			c, err := r.(*extendretractpb.ApiRouter).GetExtendRetractApiClient(n)
			return iface(c), err
		},
		calls: map[string]call{
			"GetExtension": {req: func() proto.Message { return &traits.GetExtensionRequest{} }, unary: func(ctx context.Context, c any, q proto.Message) (proto.Message, error) {
				return msg(c.(traits.ExtendRetractApiClient).GetExtension(ctx, q.(*traits.GetExtensionRequest)))
			}},
			"UpdateExtension": {req: func() proto.Message { return &traits.UpdateExtensionRequest{} }, unary: func(ctx context.Context, c any, q proto.Message) (proto.Message, error) {
				return msg(c.(traits.ExtendRetractApiClient).UpdateExtension(ctx, q.(*traits.UpdateExtensionRequest)))
			}},
			"Stop": {req: func() proto.Message { return &traits.ExtendRetractStopRequest{} }, unary: func(ctx context.Context, c any, q proto.Message) (proto.Message, error) {
				return msg(c.(traits.ExtendRetractApiClient).Stop(ctx, q.(*traits.ExtendRetractStopRequest)))
			}},
			"CreateExtensionPreset": {req: func() proto.Message { return &traits.CreateExtensionPresetRequest{} }, unary: func(ctx context.Context, c any, q proto.Message) (proto.Message, error) {
				return msg(c.(traits.ExtendRetractApiClient).CreateExtensionPreset(ctx, q.(*traits.CreateExtensionPresetRequest)))
			}},
			"PullExtensions": {req: func() proto.Message { return &traits.PullExtensionsRequest{} }, res: func() proto.Message { return &traits.PullExtensionsResponse{} }, open: func(ctx context.Context, c any, q proto.Message) (grpc.ClientStream, error) {
				return open(c.(traits.ExtendRetractApiClient).PullExtensions(ctx, q.(*traits.PullExtensionsRequest)))
			}},
		},
	},
	{
		name: "extendretractpb.InfoRouter", desc: &traits.ExtendRetractInfo_ServiceDesc,
		router: func(opts ...router.Option) router.Router { return extendretractpb.NewInfoRouter(opts...) },
		factory: func(f func(string) (any, error)) router.Option {
			return extendretractpb.WithExtendRetractInfoClientFactory(func(n string) (traits.ExtendRetractInfoClient, error) {
				return as[traits.ExtendRetractInfoClient](f(n))
			})
		},
		client: func(cc grpc.ClientConnInterface) any { return traits.NewExtendRetractInfoClient(cc) },
		wrap:   func(s any) wrapped { return extendretractpb.WrapInfo(s.(traits.ExtendRetractInfoServer)) },
		unwrap: func(w any) any {
			return w.(interface {
				UnwrapServer() traits.ExtendRetractInfoServer
			}).UnwrapServer()
		},
		register: func(r any, s grpc.ServiceRegistrar) { r.(*extendretractpb.InfoRouter).Register(s) },
		add: func(r any, n string, c any) any {
			return iface(r.(*extendretractpb.InfoRouter).AddExtendRetractInfoClient(n, c.(traits.ExtendRetractInfoClient)))
		},
		remove: func(r any, n string) any {
			return iface(r.(*extendretractpb.InfoRouter).RemoveExtendRetractInfoClient(n))
		},
		get: func(r any, n string) (any, error) {
			c, err := r.(*extendretractpb.InfoRouter).GetExtendRetractInfoClient(n)
			return iface(c), err
		},
		calls: map[string]call{
			"DescribeExtension": {req: func() proto.Message { return &traits.DescribeExtensionRequest{} }, unary: func(ctx context.Context, c any, q proto.Message) (proto.Message, error) {
				return msg(c.(traits.ExtendRetractInfoClient).DescribeExtension(ctx, q.(*traits.DescribeExtensionRequest)))
			}},
		},
	},
	{
		name: "fanspeedpb.ApiRouter", desc: &traits.FanSpeedApi_ServiceDesc,
		router: func(opts ...router.Option) router.Router { return fanspeedpb.NewApiRouter(opts...) },
		factory: func(f func(string) (any, error)) router.Option {
			return fanspeedpb.WithFanSpeedApiClientFactory(func(n string) (traits.FanSpeedApiClient, error) { return as[traits.FanSpeedApiClient](f(n)) })
		},
		client: func(cc grpc.ClientConnInterface) any { return traits.NewFanSpeedApiClient(cc) },
		wrap:   func(s any) wrapped { return fanspeedpb.WrapApi(s.(traits.FanSpeedApiServer)) },
		unwrap: func(w any) any {
			return w.(interface {
				UnwrapServer() traits.FanSpeedApiServer
			}).UnwrapServer()
		},
		register: func(r any, s grpc.ServiceRegistrar) { r.(*fanspeedpb.ApiRouter).Register(s) },
		add: func(r any, n string, c any) any {
			return iface(r.(*fanspeedpb.ApiRouter).AddFanSpeedApiClient(n, c.(traits.FanSpeedApiClient)))
		},
		remove: func(r any, n string) any { return iface(r.(*fanspeedpb.ApiRouter).RemoveFanSpeedApiClient(n)) },
		get: func(r any, n string) (any, error) {
			c, err := r.(*fanspeedpb.ApiRouter).GetFanSpeedApiClient(n)
			return iface(c), err
		},
		calls: map[string]call{
			"GetFanSpeed": {req: func() proto.Message { return &traits.GetFanSpeedRequest{} }, unary: func(ctx context.Context, c any, q proto.Message) (proto.Message, error) {
				return msg(c.(traits.FanSpeedApiClient).GetFanSpeed(ctx, q.(*traits.GetFanSpeedRequest)))
			}},
			"UpdateFanSpeed": {req: func() proto.Message { return &traits.UpdateFanSpeedRequest{} }, unary: func(ctx context.Context, c any, q proto.Message) (proto.Message, error) {
				return msg(c.(traits.FanSpeedApiClient).UpdateFanSpeed(ctx, q.(*traits.UpdateFanSpeedRequest)))
			}},
			"PullFanSpeed": {req: func() proto.Message { return &traits.PullFanSpeedRequest{} }, res: func() proto.Message { return &traits.PullFanSpeedResponse{} }, open: func(ctx context.Context, c any, q proto.Message) (grpc.ClientStream, error) {
				return open(c.(traits.FanSpeedApiClient).PullFanSpeed(ctx, q.(*traits.PullFanSpeedRequest)))
			}},
			"ReverseFanSpeedDirection": {req: func() proto.Message { return &traits.ReverseFanSpeedDirectionRequest{} }, unary: func(ctx context.Context, c any, q proto.Message) (proto.Message, error) {
				return msg(c.(traits.FanSpeedApiClient).ReverseFanSpeedDirection(ctx, q.(*traits.ReverseFanSpeedDirectionRequest)))
			}},
		},
	},
	{
		name: "fanspeedpb.InfoRouter", desc: &traits.FanSpeedInfo_ServiceDesc,
		router: func(opts ...router.Option) router.Router { return fanspeedpb.NewInfoRouter(opts...) },
		factory: func(f func(string) (any, error)) router.Option {
			return fanspeedpb.WithFanSpeedInfoClientFactory(func(n string) (traits.FanSpeedInfoClient, error) { return as[traits.FanSpeedInfoClient](f(n)) })
		},
		client: func(cc grpc.ClientConnInterface) any { return traits.NewFanSpeedInfoClient(cc) },
		wrap:   func(s any) wrapped { return fanspeedpb.WrapInfo(s.(traits.FanSpeedInfoServer)) },
		unwrap: func(w any) any {
			return w.(interface {
				UnwrapServer() traits.FanSpeedInfoServer
			}).UnwrapServer()
		},
		register: func(r any, s grpc.ServiceRegistrar) { r.(*fanspeedpb.InfoRouter).Register(s) },
		add: func(r any, n string, c any) any {
			return iface(r.(*fanspeedpb.InfoRouter).AddFanSpeedInfoClient(n, c.(traits.FanSpeedInfoClient)))
		},
		remove: func(r any, n string) any { return iface(r.(*fanspeedpb.InfoRouter).RemoveFanSpeedInfoClient(n)) },
		get: func(r any, n string) (any, error) {
			c, err := r.(*fanspeedpb.InfoRouter).GetFanSpeedInfoClient(n)
			return iface(c), err
		},
		calls: map[string]call{
			"DescribeFanSpeed": {req: func() proto.Message { return &traits.DescribeFanSpeedRequest{} }, unary: func(ctx context.Context, c any, q proto.Message) (proto.Message, error) {
				return msg(c.(traits.FanSpeedInfoClient).DescribeFanSpeed(ctx, q.(*traits.DescribeFanSpeedRequest)))
			}},
		},
	},
	{
		name: "hailpb.ApiRouter", desc: &traits.HailApi_ServiceDesc,
		router: func(opts ...router.Option) router.Router { return hailpb.NewApiRouter(opts...) },
		factory: func(f func(string) (any, error)) router.Option {
			return hailpb.WithHailApiClientFactory(func(n string) (traits.HailApiClient, error) { return as[traits.HailApiClient](f(n)) })
		},
		client:   func(cc grpc.ClientConnInterface) any { return traits.NewHailApiClient(cc) },
		wrap:     func(s any) wrapped { return hailpb.WrapApi(s.(traits.HailApiServer)) },
		unwrap:   func(w any) any { return w.(interface{ UnwrapServer() traits.HailApiServer }).UnwrapServer() },
		register: func(r any, s grpc.ServiceRegistrar) { r.(*hailpb.ApiRouter).Register(s) },
		add: func(r any, n string, c any) any {
			return iface(r.(*hailpb.ApiRouter).AddHailApiClient(n, c.(traits.HailApiClient)))
		},
		remove: func(r any, n string) any { return iface(r.(*hailpb.ApiRouter).RemoveHailApiClient(n)) },
		get: func(r any, n string) (any, error) {
			c, err := r.(*hailpb.ApiRouter).GetHailApiClient(n)
			return iface(c), err
		},
		calls: map[string]call{
			"CreateHail": {req: func() proto.Message { return &traits.CreateHailRequest{} }, unary: func(ctx context.Context, c any, q proto.Message) (proto.Message, error) {
				return msg(c.(traits.HailApiClient).CreateHail(ctx, q.(*traits.CreateHailRequest)))
			}},
			"GetHail": {req: func() proto.Message { return &traits.GetHailRequest{} }, unary: func(ctx context.Context, c any, q proto.Message) (proto.Message, error) {
				return msg(c.(traits.HailApiClient).GetHail(ctx, q.(*traits.GetHailRequest)))
			}},
			"UpdateHail": {req: func() proto.Message { return &traits.UpdateHailRequest{} }, unary: func(ctx context.Context, c any, q proto.Message) (proto.Message, error) {
				return msg(c.(traits.HailApiClient).UpdateHail(ctx, q.(*traits.UpdateHailRequest)))
			}},
			"DeleteHail": {req: func() proto.Message { return &traits.DeleteHailRequest{} }, unary: func(ctx context.Context, c any, q proto.Message) (proto.Message, error) {
				return msg(c.(traits.HailApiClient).DeleteHail(ctx, q.(*traits.DeleteHailRequest)))
			}},
			"PullHail": {req: func() proto.Message { return &traits.PullHailRequest{} }, res: func() proto.Message { return &traits.PullHailResponse{} }, open: func(ctx context.Context, c any, q proto.Message) (grpc.ClientStream, error) {
				return open(c.(traits.HailApiClient).PullHail(ctx, q.(*traits.PullHailRequest)))
			}},
			"ListHails": {req: func() proto.Message { return &traits.ListHailsRequest{} }, unary: func(ctx context.Context, c any, q proto.Message) (proto.Message, error) {
				return msg(c.(traits.HailApiClient).ListHails(ctx, q.(*traits.ListHailsRequest)))
			}},
			"PullHails": {req: func() proto.Message { return &traits.PullHailsRequest{} }, res: func() proto.Message { return &traits.PullHailsResponse{} }, open: func(ctx context.Context, c any, q proto.Message) (grpc.ClientStream, error) {
				return open(c.(traits.HailApiClient).PullHails(ctx, q.(*traits.PullHailsRequest)))
			}},
		},
	},
	{
		name: "hailpb.InfoRouter", desc: &traits.HailInfo_ServiceDesc,
		router: func(opts ...router.Option) router.Router { return hailpb.NewInfoRouter(opts...) },
		factory: func(f func(string) (any, error)) router.Option {
			return hailpb.WithHailInfoClientFactory(func(n string) (traits.HailInfoClient, error) { return as[traits.HailInfoClient](f(n)) })
		},
		client:   func(cc grpc.ClientConnInterface) any { return traits.NewHailInfoClient(cc) },
		wrap:     func(s any) wrapped { return hailpb.WrapInfo(s.(traits.HailInfoServer)) },
		unwrap:   func(w any) any { return w.(interface{ UnwrapServer() traits.HailInfoServer }).UnwrapServer() },
		register: func(r any, s grpc.ServiceRegistrar) { r.(*hailpb.InfoRouter).Register(s) },
		add: func(r any, n string, c any) any {
			return iface(r.(*hailpb.InfoRouter).AddHailInfoClient(n, c.(traits.HailInfoClient)))
		},
		remove: func(r any, n string) any { return iface(r.(*hailpb.InfoRouter).RemoveHailInfoClient(n)) },
		get: func(r any, n string) (any, error) {
			c, err := r.(*hailpb.InfoRouter).GetHailInfoClient(n)
			return iface(c), err
		},
		calls: map[string]call{},
	},
	{
		name: "inputselectpb.ApiRouter", desc: &traits.InputSelectApi_ServiceDesc,
		router: func(opts ...router.Option) router.Router { return inputselectpb.NewApiRouter(opts...) },
		factory: func(f func(string) (any, error)) router.Option {
			return inputselectpb.WithInputSelectApiClientFactory(func(n string) (traits.InputSelectApiClient, error) { return as[traits.InputSelectApiClient](f(n)) })
		},
		client: func(cc grpc.ClientConnInterface) any { return traits.NewInputSelectApiClient(cc) },
		wrap:   func(s any) wrapped { return inputselectpb.WrapApi(s.(traits.InputSelectApiServer)) },
		unwrap: func(w any) any {
			return w.(interface {
				UnwrapServer() traits.InputSelectApiServer
			}).UnwrapServer()
		},
		register: func(r any, s grpc.ServiceRegistrar) { r.(*inputselectpb.ApiRouter).Register(s) },
		add: func(r any, n string, c any) any {
			return iface(r.(*inputselectpb.ApiRouter).AddInputSelectApiClient(n, c.(traits.InputSelectApiClient)))
		},
		remove: func(r any, n string) any { return iface(r.(*inputselectpb.ApiRouter).RemoveInputSelectApiClient(n)) },
		get: func(r any, n string) (any, error) {
			c, err := r.(*inputselectpb.ApiRouter).GetInputSelectApiClient(n)
			return iface(c), err
		},
		calls: map[string]call{
			"UpdateInput": {req: func() proto.Message { return &traits.UpdateInputRequest{} }, unary: func(ctx context.Context, c any, q proto.Message) (proto.Message, error) {
				return msg(c.(traits.InputSelectApiClient).UpdateInput(ctx, q.(*traits.UpdateInputRequest)))
			}},
			"GetInput": {req: func() proto.Message { return &traits.GetInputRequest{} }, unary: func(ctx context.Context, c any, q proto.Message) (proto.Message, error) {
				return msg(c.(traits.InputSelectApiClient).GetInput(ctx, q.(*traits.GetInputRequest)))
			}},
			"PullInput": {req: func() proto.Message { return &traits.PullInputRequest{} }, res: func() proto.Message { return &traits.PullInputResponse{} }, open: func(ctx context.Context, c any, q proto.Message) (grpc.ClientStream, error) {
				return open(c.(traits.InputSelectApiClient).PullInput(ctx, q.(*traits.PullInputRequest)))
			}},
		},
	},
	{
		name: "inputselectpb.InfoRouter", desc: &traits.InputSelectInfo_ServiceDesc,
		router: func(opts ...router.Option) router.Router { return inputselectpb.NewInfoRouter(opts...) },
		factory: func(f func(string) (any, error)) router.Option {
			return inputselectpb.WithInputSelectInfoClientFactory(func(n string) (traits.InputSelectInfoClient, error) { return as[traits.InputSelectInfoClient](f(n)) })
		},
		client: func(cc grpc.ClientConnInterface) any { return traits.NewInputSelectInfoClient(cc) },
		wrap:   func(s any) wrapped { return inputselectpb.WrapInfo(s.(traits.InputSelectInfoServer)) },
		unwrap: func(w any) any {
			return w.(interface {
				UnwrapServer() traits.InputSelectInfoServer
			}).UnwrapServer()
		},
		register: func(r any, s grpc.ServiceRegistrar) { r.(*inputselectpb.InfoRouter).Register(s) },
		add: func(r any, n string, c any) any {
			return iface(r.(*inputselectpb.InfoRouter).AddInputSelectInfoClient(n, c.(traits.InputSelectInfoClient)))
		},
		remove: func(r any, n string) any { return iface(r.(*inputselectpb.InfoRouter).RemoveInputSelectInfoClient(n)) },
		get: func(r any, n string) (any, error) {
			c, err := r.(*inputselectpb.InfoRouter).GetInputSelectInfoClient(n)
			return iface(c), err
		},
		calls: map[string]call{
			"DescribeInput": {req: func() proto.Message { return &traits.DescribeInputRequest{} }, unary: func(ctx context.Context, c any, q proto.Message) (proto.Message, error) {
				return msg(c.(traits.InputSelectInfoClient).DescribeInput(ctx, q.(*traits.DescribeInputRequest)))
			}},
		},
	},
	{
		name: "lightpb.ApiRouter", desc: &traits.LightApi_ServiceDesc,
		router: func(opts ...router.Option) router.Router { return lightpb.NewApiRouter(opts...) },
		factory: func(f func(string) (any, error)) router.Option {
			return lightpb.WithLightApiClientFactory(func(n string) (traits.LightApiClient, error) { return as[traits.LightApiClient](f(n)) })
		},
		client:   func(cc grpc.ClientConnInterface) any { return traits.NewLightApiClient(cc) },
		wrap:     func(s any) wrapped { return lightpb.WrapApi(s.(traits.LightApiServer)) },
		unwrap:   func(w any) any { return w.(interface{ UnwrapServer() traits.LightApiServer }).UnwrapServer() },
		register: func(r any, s grpc.ServiceRegistrar) { r.(*lightpb.ApiRouter).Register(s) },
		add: func(r any, n string, c any) any {
			return iface(r.(*lightpb.ApiRouter).AddLightApiClient(n, c.(traits.LightApiClient)))
		},
		remove: func(r any, n string) any { return iface(r.(*lightpb.ApiRouter).RemoveLightApiClient(n)) },
		get: func(r any, n string) (any, error) {
			c, err := r.(*lightpb.ApiRouter).GetLightApiClient(n)
			return iface(c), err
		},
		calls: map[string]call{
			"UpdateBrightness": {req: func() proto.Message { return &traits.UpdateBrightnessRequest{} }, unary: func(ctx context.Context, c any, q proto.Message) (proto.Message, error) {
				return msg(c.(traits.LightApiClient).UpdateBrightness(ctx, q.(*traits.UpdateBrightnessRequest)))
			}},
			"GetBrightness": {req: func() proto.Message { return &traits.GetBrightnessRequest{} }, unary: func(ctx context.Context, c any, q proto.Message) (proto.Message, error) {
				return msg(c.(traits.LightApiClient).GetBrightness(ctx, q.(*traits.GetBrightnessRequest)))
			}},
			"PullBrightness": {req: func() proto.Message { return &traits.PullBrightnessRequest{} }, res: func() proto.Message { return &traits.PullBrightnessResponse{} }, open: func(ctx context.Context, c any, q proto.Message) (grpc.ClientStream, error) {
				return open(c.(traits.LightApiClient).PullBrightness(ctx, q.(*traits.PullBrightnessRequest)))
			}},
		},
	},
	{
		name: "lightpb.InfoRouter", desc: &traits.LightInfo_ServiceDesc,
		router: func(opts ...router.Option) router.Router { return lightpb.NewInfoRouter(opts...) },
		factory: func(f func(string) (any, error)) router.Option {
			return lightpb.WithLightInfoClientFactory(func(n string) (traits.LightInfoClient, error) { return as[traits.LightInfoClient](f(n)) })
		},
		client:   func(cc grpc.ClientConnInterface) any { return traits.NewLightInfoClient(cc) },
		wrap:     func(s any) wrapped { return lightpb.WrapInfo(s.(traits.LightInfoServer)) },
		unwrap:   func(w any) any { return w.(interface{ UnwrapServer() traits.LightInfoServer }).UnwrapServer() },
		register: func(r any, s grpc.ServiceRegistrar) { r.(*lightpb.InfoRouter).Register(s) },
		add: func(r any, n string, c any) any {
			return iface(r.(*lightpb.InfoRouter).AddLightInfoClient(n, c.(traits.LightInfoClient)))
		},
		remove: func(r any, n string) any { return iface(r.(*lightpb.InfoRouter).RemoveLightInfoClient(n)) },
		get: func(r any, n string) (any, error) {
			c, err := r.(*lightpb.InfoRouter).GetLightInfoClient(n)
			return iface(c), err
		},
		calls: map[string]call{
			"DescribeBrightness": {req: func() proto.Message { return &traits.DescribeBrightnessRequest{} }, unary: func(ctx context.Context, c any, q proto.Message) (proto.Message, error) {
				return msg(c.(traits.LightInfoClient).DescribeBrightness(ctx, q.(*traits.DescribeBrightnessRequest)))
			}},
		},
	},
	{
		name: "lockunlockpb.ApiRouter", desc: &traits.LockUnlockApi_ServiceDesc,
		router: func(opts ...router.Option) router.Router { return lockunlockpb.NewApiRouter(opts...) },
		factory: func(f func(string) (any, error)) router.Option {
			return lockunlockpb.WithLockUnlockApiClientFactory(func(n string) (traits.LockUnlockApiClient, error) { return as[traits.LockUnlockApiClient](f(n)) })
		},
		client: func(cc grpc.ClientConnInterface) any { return traits.NewLockUnlockApiClient(cc) },
		wrap:   func(s any) wrapped { return lockunlockpb.WrapApi(s.(traits.LockUnlockApiServer)) },
		unwrap: func(w any) any {
			return w.(interface {
				UnwrapServer() traits.LockUnlockApiServer
			}).UnwrapServer()
		},
		register: func(r any, s grpc.ServiceRegistrar) { r.(*lockunlockpb.ApiRouter).Register(s) },
		add: func(r any, n string, c any) any {
			return iface(r.(*lockunlockpb.ApiRouter).AddLockUnlockApiClient(n, c.(traits.LockUnlockApiClient)))
		},
		remove: func(r any, n string) any { return iface(r.(*lockunlockpb.ApiRouter).RemoveLockUnlockApiClient(n)) },
		get: func(r any, n string) (any, error) {
			c, err := r.(*lockunlockpb.ApiRouter).GetLockUnlockApiClient(n)
			return iface(c), err
		},
		calls: map[string]call{
			"GetLockUnlock": {req: func() proto.Message { return &traits.GetLockUnlockRequest{} }, unary: func(ctx context.Context, c any, q proto.Message) (proto.Message, error) {
				return msg(c.(traits.LockUnlockApiClient).GetLockUnlock(ctx, q.(*traits.GetLockUnlockRequest)))
			}},
			"UpdateLockUnlock": {req: func() proto.Message { return &traits.UpdateLockUnlockRequest{} }, unary: func(ctx context.Context, c any, q proto.Message) (proto.Message, error) {
				return msg(c.(traits.LockUnlockApiClient).UpdateLockUnlock(ctx, q.(*traits.UpdateLockUnlockRequest)))
			}},
			"PullLockUnlock": {req: func() proto.Message { return &traits.PullLockUnlockRequest{} }, res: func() proto.Message { return &traits.PullLockUnlockResponse{} }, open: func(ctx context.Context, c any, q proto.Message) (grpc.ClientStream, error) {
				return open(c.(traits.LockUnlockApiClient).PullLockUnlock(ctx, q.(*traits.PullLockUnlockRequest)))
			}},
		},
	},
	{
		name: "lockunlockpb.InfoRouter", desc: &traits.LockUnlockInfo_ServiceDesc,
		router: func(opts ...router.Option) router.Router { return lockunlockpb.NewInfoRouter(opts...) },
		factory: func(f func(string) (any, error)) router.Option {
			return lockunlockpb.WithLockUnlockInfoClientFactory(func(n string) (traits.LockUnlockInfoClient, error) { return as[traits.LockUnlockInfoClient](f(n)) })
		},
		client: func(cc grpc.ClientConnInterface) any { return traits.NewLockUnlockInfoClient(cc) },
		wrap:   func(s any) wrapped { return lockunlockpb.WrapInfo(s.(traits.LockUnlockInfoServer)) },
		unwrap: func(w any) any {
			return w.(interface {
				UnwrapServer() traits.LockUnlockInfoServer
			}).UnwrapServer()
		},
		register: func(r any, s grpc.ServiceRegistrar) { r.(*lockunlockpb.InfoRouter).Register(s) },
		add: func(r any, n string, c any) any {
			return iface(r.(*lockunlockpb.InfoRouter).AddLockUnlockInfoClient(n, c.(traits.LockUnlockInfoClient)))
		},
		remove: func(r any, n string) any { return iface(r.(*lockunlockpb.InfoRouter).RemoveLockUnlockInfoClient(n)) },
		get: func(r any, n string) (any, error) {
			c, err := r.(*lockunlockpb.InfoRouter).GetLockUnlockInfoClient(n)
			return iface(c), err
		},
		calls: map[string]call{},
	},
	{
		name: "metadatapb.ApiRouter", desc: &traits.MetadataApi_ServiceDesc,
		router: func(opts ...router.Option) router.Router { return metadatapb.NewApiRouter(opts...) },
		factory: func(f func(string) (any, error)) router.Option {
			return metadatapb.WithMetadataApiClientFactory(func(n string) (traits.MetadataApiClient, error) { return as[traits.MetadataApiClient](f(n)) })
		},
		client: func(cc grpc.ClientConnInterface) any { return traits.NewMetadataApiClient(cc) },
		wrap:   func(s any) wrapped { return metadatapb.WrapApi(s.(traits.MetadataApiServer)) },
		unwrap: func(w any) any {
			return w.(interface {
				UnwrapServer() traits.MetadataApiServer
			}).UnwrapServer()
		},
		register: func(r any, s grpc.ServiceRegistrar) { r.(*metadatapb.ApiRouter).Register(s) },
		add: func(r any, n string, c any) any {
			return iface(r.(*metadatapb.ApiRouter).AddMetadataApiClient(n, c.(traits.MetadataApiClient)))
		},
		remove: func(r any, n string) any { return iface(r.(*metadatapb.ApiRouter).RemoveMetadataApiClient(n)) },
		get: func(r any, n string) (any, error) {
			c, err := r.(*metadatapb.ApiRouter).GetMetadataApiClient(n)
			return iface(c), err
		},
		calls: map[string]call{
			"GetMetadata": {req: func() proto.Message { return &traits.GetMetadataRequest{} }, unary: func(ctx context.Context, c any, q proto.Message) (proto.Message, error) {
				return msg(c.(traits.MetadataApiClient).GetMetadata(ctx, q.(*traits.GetMetadataRequest)))
			}},
			"PullMetadata": {req: func() proto.Message { return &traits.PullMetadataRequest{} }, res: func() proto.Message { return &traits.PullMetadataResponse{} }, open: func(ctx context.Context, c any, q proto.Message) (grpc.ClientStream, error) {
				return open(c.(traits.MetadataApiClient).PullMetadata(ctx, q.(*traits.PullMetadataRequest)))
			}},
		},
	},
	{
		name: "metadatapb.InfoRouter", desc: &traits.MetadataInfo_ServiceDesc,
		router: func(opts ...router.Option) router.Router { return metadatapb.NewInfoRouter(opts...) },
		factory: func(f func(string) (any, error)) router.Option {
			return metadatapb.WithMetadataInfoClientFactory(func(n string) (traits.MetadataInfoClient, error) { return as[traits.MetadataInfoClient](f(n)) })
		},
		client: func(cc grpc.ClientConnInterface) any { return traits.NewMetadataInfoClient(cc) },
		wrap:   func(s any) wrapped { return metadatapb.WrapInfo(s.(traits.MetadataInfoServer)) },
		unwrap: func(w any) any {
			return w.(interface {
				UnwrapServer() traits.MetadataInfoServer
			}).UnwrapServer()
		},
		register: func(r any, s grpc.ServiceRegistrar) { r.(*metadatapb.InfoRouter).Register(s) },
		add: func(r any, n string, c any) any {
			return iface(r.(*metadatapb.InfoRouter).AddMetadataInfoClient(n, c.(traits.MetadataInfoClient)))
		},
		remove: func(r any, n string) any { return iface(r.(*metadatapb.InfoRouter).RemoveMetadataInfoClient(n)) },
		get: func(r any, n string) (any, error) {
			c, err := r.(*metadatapb.InfoRouter).GetMetadataInfoClient(n)
			return iface(c), err
		},
		calls: map[string]call{},
	},
	{
		name: "meterpb.ApiRouter", desc: &traits.MeterApi_ServiceDesc,
		router: func(opts ...router.Option) router.Router { return meterpb.NewApiRouter(opts...) },
		factory: func(f func(string) (any, error)) router.Option {
			return meterpb.WithMeterApiClientFactory(func(n string) (traits.MeterApiClient, error) { return as[traits.MeterApiClient](f(n)) })
		},
		client:   func(cc grpc.ClientConnInterface) any { return traits.NewMeterApiClient(cc) },
		wrap:     func(s any) wrapped { return meterpb.WrapApi(s.(traits.MeterApiServer)) },
		unwrap:   func(w any) any { return w.(interface{ UnwrapServer() traits.MeterApiServer }).UnwrapServer() },
		register: func(r any, s grpc.ServiceRegistrar) { r.(*meterpb.ApiRouter).Register(s) },
		add: func(r any, n string, c any) any {
			return iface(r.(*meterpb.ApiRouter).AddMeterApiClient(n, c.(traits.MeterApiClient)))
		},
		remove: func(r any, n string) any { return iface(r.(*meterpb.ApiRouter).RemoveMeterApiClient(n)) },
		get: func(r any, n string) (any, error) {
			c, err := r.(*meterpb.ApiRouter).GetMeterApiClient(n)
			return iface(c), err
		},
		calls: map[string]call{
			"GetMeterReading": {req: func() proto.Message { return &traits.GetMeterReadingRequest{} }, unary: func(ctx context.Context, c any, q proto.Message) (proto.Message, error) {
				return msg(c.(traits.MeterApiClient).GetMeterReading(ctx, q.(*traits.GetMeterReadingRequest)))
			}},
			"PullMeterReadings": {req: func() proto.Message { return &traits.PullMeterReadingsRequest{} }, res: func() proto.Message { return &traits.PullMeterReadingsResponse{} }, open: func(ctx context.Context, c any, q proto.Message) (grpc.ClientStream, error) {
				return open(c.(traits.MeterApiClient).PullMeterReadings(ctx, q.(*traits.PullMeterReadingsRequest)))
			}},
		},
	},
	{
		name: "meterpb.InfoRouter", desc: &traits.MeterInfo_ServiceDesc,
		router: func(opts ...router.Option) router.Router { return meterpb.NewInfoRouter(opts...) },
		factory: func(f func(string) (any, error)) router.Option {
			return meterpb.WithMeterInfoClientFactory(func(n string) (traits.MeterInfoClient, error) { return as[traits.MeterInfoClient](f(n)) })
		},
		client:   func(cc grpc.ClientConnInterface) any { return traits.NewMeterInfoClient(cc) },
		wrap:     func(s any) wrapped { return meterpb.WrapInfo(s.(traits.MeterInfoServer)) },
		unwrap:   func(w any) any { return w.(interface{ UnwrapServer() traits.MeterInfoServer }).UnwrapServer() },
		register: func(r any, s grpc.ServiceRegistrar) { r.(*meterpb.InfoRouter).Register(s) },
		add: func(r any, n string, c any) any {
			return iface(r.(*meterpb.InfoRouter).AddMeterInfoClient(n, c.(traits.MeterInfoClient)))
		},
		remove: func(r any, n string) any { return iface(r.(*meterpb.InfoRouter).RemoveMeterInfoClient(n)) },
		get: func(r any, n string) (any, error) {
			c, err := r.(*meterpb.InfoRouter).GetMeterInfoClient(n)
			return iface(c), err
		},
		calls: map[string]call{
			"DescribeMeterReading": {req: func() proto.Message { return &traits.DescribeMeterReadingRequest{} }, unary: func(ctx context.Context, c any, q proto.Message) (proto.Message, error) {
				return msg(c.(traits.MeterInfoClient).DescribeMeterReading(ctx, q.(*traits.DescribeMeterReadingRequest)))
			}},
		},
	},
	{
		name: "microphonepb.ApiRouter", desc: &traits.MicrophoneApi_ServiceDesc,
		router: func(opts ...router.Option) router.Router { return microphonepb.NewApiRouter(opts...) },
		factory: func(f func(string) (any, error)) router.Option {
			return microphonepb.WithMicrophoneApiClientFactory(func(n string) (traits.MicrophoneApiClient, error) { return as[traits.MicrophoneApiClient](f(n)) })
		},
		client: func(cc grpc.ClientConnInterface) any { return traits.NewMicrophoneApiClient(cc) },
		wrap:   func(s any) wrapped { return microphonepb.WrapApi(s.(traits.MicrophoneApiServer)) },
		unwrap: func(w any) any {
			return w.(interface {
				UnwrapServer() traits.MicrophoneApiServer
			}).UnwrapServer()
		},
		register: func(r any, s grpc.ServiceRegistrar) { r.(*microphonepb.ApiRouter).Register(s) },
		add: func(r any, n string, c any) any {
			return iface(r.(*microphonepb.ApiRouter).AddMicrophoneApiClient(n, c.(traits.MicrophoneApiClient)))
		},
		remove: func(r any, n string) any { return iface(r.(*microphonepb.ApiRouter).RemoveMicrophoneApiClient(n)) },
		get: func(r any, n string) (any, error) {
			c, err := r.(*microphonepb.ApiRouter).GetMicrophoneApiClient(n)
			return iface(c), err
		},
		calls: map[string]call{
			"GetGain": {req: func() proto.Message { return &traits.GetMicrophoneGainRequest{} }, unary: func(ctx context.Context, c any, q proto.Message) (proto.Message, error) {
				return msg(c.(traits.MicrophoneApiClient).GetGain(ctx, q.(*traits.GetMicrophoneGainRequest)))
			}},
			"UpdateGain": {req: func() proto.Message { return &traits.UpdateMicrophoneGainRequest{} }, unary: func(ctx context.Context, c any, q proto.Message) (proto.Message, error) {
				return msg(c.(traits.MicrophoneApiClient).UpdateGain(ctx, q.(*traits.UpdateMicrophoneGainRequest)))
			}},
			"PullGain": {req: func() proto.Message { return &traits.PullMicrophoneGainRequest{} }, res: func() proto.Message { return &traits.PullMicrophoneGainResponse{} }, open: func(ctx context.Context, c any, q proto.Message) (grpc.ClientStream, error) {
				return open(c.(traits.MicrophoneApiClient).PullGain(ctx, q.(*traits.PullMicrophoneGainRequest)))
			}},
		},
	},
	{
		name: "microphonepb.InfoRouter", desc: &traits.MicrophoneInfo_ServiceDesc,
		router: func(opts ...router.Option) router.Router { return microphonepb.NewInfoRouter(opts...) },
		factory: func(f func(string) (any, error)) router.Option {
			return microphonepb.WithMicrophoneInfoClientFactory(func(n string) (traits.MicrophoneInfoClient, error) { return as[traits.MicrophoneInfoClient](f(n)) })
		},
		client: func(cc grpc.ClientConnInterface) any { return traits.NewMicrophoneInfoClient(cc) },
		wrap:   func(s any) wrapped { return microphonepb.WrapInfo(s.(traits.MicrophoneInfoServer)) },
		unwrap: func(w any) any {
			return w.(interface {
				UnwrapServer() traits.MicrophoneInfoServer
			}).UnwrapServer()
		},
		register: func(r any, s grpc.ServiceRegistrar) { r.(*microphonepb.InfoRouter).Register(s) },
		add: func(r any, n string, c any) any {
			return iface(r.(*microphonepb.InfoRouter).AddMicrophoneInfoClient(n, c.(traits.MicrophoneInfoClient)))
		},
		remove: func(r any, n string) any { return iface(r.(*microphonepb.InfoRouter).RemoveMicrophoneInfoClient(n)) },
		get: func(r any, n string) (any, error) {
			c, err := r.(*microphonepb.InfoRouter).GetMicrophoneInfoClient(n)
			return iface(c), err
		},
		calls: map[string]call{
			"DescribeGain": {req: func() proto.Message { return &traits.DescribeGainRequest{} }, unary: func(ctx context.Context, c any, q proto.Message) (proto.Message, error) {
				return msg(c.(traits.MicrophoneInfoClient).DescribeGain(ctx, q.(*traits.DescribeGainRequest)))
			}},
		},
	},
	{
		name: "modepb.ApiRouter", desc: &traits.ModeApi_ServiceDesc,
		router: func(opts ...router.Option) router.Router { return modepb.NewApiRouter(opts...) },
		factory: func(f func(string) (any, error)) router.Option {
			return modepb.WithModeApiClientFactory(func(n string) (traits.ModeApiClient, error) { return as[traits.ModeApiClient](f(n)) })
		},
		client:   func(cc grpc.ClientConnInterface) any { return traits.NewModeApiClient(cc) },
		wrap:     func(s any) wrapped { return modepb.WrapApi(s.(traits.ModeApiServer)) },
		unwrap:   func(w any) any { return w.(interface{ UnwrapServer() traits.ModeApiServer }).UnwrapServer() },
		register: func(r any, s grpc.ServiceRegistrar) { r.(*modepb.ApiRouter).Register(s) },
		add: func(r any, n string, c any) any {
			return iface(r.(*modepb.ApiRouter).AddModeApiClient(n, c.(traits.ModeApiClient)))
		},
		remove: func(r any, n string) any { return iface(r.(*modepb.ApiRouter).RemoveModeApiClient(n)) },
		get: func(r any, n string) (any, error) {
			c, err := r.(*modepb.ApiRouter).GetModeApiClient(n)
			return iface(c), err
		},
		calls: map[string]call{
			"GetModeValues": {req: func() proto.Message { return &traits.GetModeValuesRequest{} }, unary: func(ctx context.Context, c any, q proto.Message) (proto.Message, error) {
				return msg(c.(traits.ModeApiClient).GetModeValues(ctx, q.(*traits.GetModeValuesRequest)))
			}},
			"UpdateModeValues": {req: func() proto.Message { return &traits.UpdateModeValuesRequest{} }, unary: func(ctx context.Context, c any, q proto.Message) (proto.Message, error) {
				return msg(c.(traits.ModeApiClient).UpdateModeValues(ctx, q.(*traits.UpdateModeValuesRequest)))
			}},
			"PullModeValues": {req: func() proto.Message { return &traits.PullModeValuesRequest{} }, res: func() proto.Message { return &traits.PullModeValuesResponse{} }, open: func(ctx context.Context, c any, q proto.Message) (grpc.ClientStream, error) {
				return open(c.(traits.ModeApiClient).PullModeValues(ctx, q.(*traits.PullModeValuesRequest)))
			}},
		},
	},
	{
		name: "modepb.InfoRouter", desc: &traits.ModeInfo_ServiceDesc,
		router: func(opts ...router.Option) router.Router { return modepb.NewInfoRouter(opts...) },
		factory: func(f func(string) (any, error)) router.Option {
			return modepb.WithModeInfoClientFactory(func(n string) (traits.ModeInfoClient, error) { return as[traits.ModeInfoClient](f(n)) })
		},
		client:   func(cc grpc.ClientConnInterface) any { return traits.NewModeInfoClient(cc) },
		wrap:     func(s any) wrapped { return modepb.WrapInfo(s.(traits.ModeInfoServer)) },
		unwrap:   func(w any) any { return w.(interface{ UnwrapServer() traits.ModeInfoServer }).UnwrapServer() },
		register: func(r any, s grpc.ServiceRegistrar) { r.(*modepb.InfoRouter).Register(s) },
		add: func(r any, n string, c any) any {
			return iface(r.(*modepb.InfoRouter).AddModeInfoClient(n, c.(traits.ModeInfoClient)))
		},
		remove: func(r any, n string) any { return iface(r.(*modepb.InfoRouter).RemoveModeInfoClient(n)) },
		get: func(r any, n string) (any, error) {
			c, err := r.(*modepb.InfoRouter).GetModeInfoClient(n)
			return iface(c), err
		},
		calls: map[string]call{
			"DescribeModes": {req: func() proto.Message { return &traits.DescribeModesRequest{} }, unary: func(ctx context.Context, c any, q proto.Message) (proto.Message, error) {
				return msg(c.(traits.ModeInfoClient).DescribeModes(ctx, q.(*traits.DescribeModesRequest)))
			}},
		},
	},
	{
		name: "motionsensorpb.ApiRouter", desc: &traits.MotionSensorApi_ServiceDesc,
		router: func(opts ...router.Option) router.Router { return motionsensorpb.NewApiRouter(opts...) },
		factory: func(f func(string) (any, error)) router.Option {
			return motionsensorpb.WithMotionSensorApiClientFactory(func(n string) (traits.MotionSensorApiClient, error) { return as[traits.MotionSensorApiClient](f(n)) })
		},
		client: func(cc grpc.ClientConnInterface) any { return traits.NewMotionSensorApiClient(cc) },
		wrap:   func(s any) wrapped { return motionsensorpb.WrapApi(s.(traits.MotionSensorApiServer)) },
		unwrap: func(w any) any {
			return w.(interface {
				UnwrapServer() traits.MotionSensorApiServer
			}).UnwrapServer()
		},
		register: func(r any, s grpc.ServiceRegistrar) { r.(*motionsensorpb.ApiRouter).Register(s) },
		add: func(r any, n string, c any) any {
			return iface(r.(*motionsensorpb.ApiRouter).AddMotionSensorApiClient(n, c.(traits.MotionSensorApiClient)))
		},
		remove: func(r any, n string) any { return iface(r.(*motionsensorpb.ApiRouter).RemoveMotionSensorApiClient(n)) },
		get: func(r any, n string) (any, error) {
			c, err := r.(*motionsensorpb.ApiRouter).GetMotionSensorApiClient(n)
			return iface(c), err
		},
		calls: map[string]call{
			"GetMotionDetection": {req: func() proto.Message { return &traits.GetMotionDetectionRequest{} }, unary: func(ctx context.Context, c any, q proto.Message) (proto.Message, error) {
				return msg(c.(traits.MotionSensorApiClient).GetMotionDetection(ctx, q.(*traits.GetMotionDetectionRequest)))
			}},
			"PullMotionDetections": {req: func() proto.Message { return &traits.PullMotionDetectionRequest{} }, res: func() proto.Message { return &traits.PullMotionDetectionResponse{} }, open: func(ctx context.Context, c any, q proto.Message) (grpc.ClientStream, error) {
				return open(c.(traits.MotionSensorApiClient).PullMotionDetections(ctx, q.(*traits.PullMotionDetectionRequest)))
			}},
		},
	},
	{
		name: "motionsensorpb.SensorInfoRouter", desc: &traits.MotionSensorSensorInfo_ServiceDesc,
		router: func(opts ...router.Option) router.Router { return motionsensorpb.NewSensorInfoRouter(opts...) },
		factory: func(f func(string) (any, error)) router.Option {
			return motionsensorpb.WithMotionSensorSensorInfoClientFactory(func(n string) (traits.MotionSensorSensorInfoClient, error) {
				return as[traits.MotionSensorSensorInfoClient](f(n))
			})
		},
		client: func(cc grpc.ClientConnInterface) any { return traits.NewMotionSensorSensorInfoClient(cc) },
		wrap:   func(s any) wrapped { return motionsensorpb.WrapSensorInfo(s.(traits.MotionSensorSensorInfoServer)) },
		unwrap: func(w any) any {
			return w.(interface {
				UnwrapServer() traits.MotionSensorSensorInfoServer
			}).UnwrapServer()
		},
		register: func(r any, s grpc.ServiceRegistrar) { r.(*motionsensorpb.SensorInfoRouter).Register(s) },
		add: func(r any, n string, c any) any {
			return iface(r.(*motionsensorpb.SensorInfoRouter).AddMotionSensorSensorInfoClient(n, c.(traits.MotionSensorSensorInfoClient)))
		},
		remove: func(r any, n string) any {
			return iface(r.(*motionsensorpb.SensorInfoRouter).RemoveMotionSensorSensorInfoClient(n))
		},
		get: func(r any, n string) (any, error) {
			c, err := r.(*motionsensorpb.SensorInfoRouter).GetMotionSensorSensorInfoClient(n)
			return iface(c), err
		},
		calls: map[string]call{
			"DescribeMotionDetection": {req: func() proto.Message { return &traits.DescribeMotionDetectionRequest{} }, unary: func(ctx context.Context, c any, q proto.Message) (proto.Message, error) {
				return msg(c.(traits.MotionSensorSensorInfoClient).DescribeMotionDetection(ctx, q.(*traits.DescribeMotionDetectionRequest)))
			}},
		},
	},
	{
		name: "occupancysensorpb.ApiRouter", desc: &traits.OccupancySensorApi_ServiceDesc,
		router: func(opts ...router.Option) router.Router { return occupancysensorpb.NewApiRouter(opts...) },
		factory: func(f func(string) (any, error)) router.Option {
			return occupancysensorpb.WithOccupancySensorApiClientFactory(func(n string) (traits.OccupancySensorApiClient, error) {
				return as[traits.OccupancySensorApiClient](f(n))
			})
		},
		client: func(cc grpc.ClientConnInterface) any { return traits.NewOccupancySensorApiClient(cc) },
		wrap:   func(s any) wrapped { return occupancysensorpb.WrapApi(s.(traits.OccupancySensorApiServer)) },
		unwrap: func(w any) any {
			return w.(interface {
				UnwrapServer() traits.OccupancySensorApiServer
			}).UnwrapServer()
		},
		register: func(r any, s grpc.ServiceRegistrar) { r.(*occupancysensorpb.ApiRouter).Register(s) },
		add: func(r any, n string, c any) any {
			return iface(r.(*occupancysensorpb.ApiRouter).AddOccupancySensorApiClient(n, c.(traits.OccupancySensorApiClient)))
		},
		remove: func(r any, n string) any {
			return iface(r.(*occupancysensorpb.ApiRouter).RemoveOccupancySensorApiClient(n))
		},
		get: func(r any, n string) (any, error) {
			c, err := r.(*occupancysensorpb.ApiRouter).GetOccupancySensorApiClient(n)
			return iface(c), err
		},
		calls: map[string]call{
			"GetOccupancy": {req: func() proto.Message { return &traits.GetOccupancyRequest{} }, unary: func(ctx context.Context, c any, q proto.Message) (proto.Message, error) {
				return msg(c.(traits.OccupancySensorApiClient).GetOccupancy(ctx, q.(*traits.GetOccupancyRequest)))
			}},
			"PullOccupancy": {req: func() proto.Message { return &traits.PullOccupancyRequest{} }, res: func() proto.Message { return &traits.PullOccupancyResponse{} }, open: func(ctx context.Context, c any, q proto.Message) (grpc.ClientStream, error) {
				return open(c.(traits.OccupancySensorApiClient).PullOccupancy(ctx, q.(*traits.PullOccupancyRequest)))
			}},
		},
	},
	{
		name: "occupancysensorpb.InfoRouter", desc: &traits.OccupancySensorInfo_ServiceDesc,
		router: func(opts ...router.Option) router.Router { return occupancysensorpb.NewInfoRouter(opts...) },
		factory: func(f func(string) (any, error)) router.Option {
			return occupancysensorpb.WithOccupancySensorInfoClientFactory(func(n string) (traits.OccupancySensorInfoClient, error) {
				return as[traits.OccupancySensorInfoClient](f(n))
			})
		},
		client: func(cc grpc.ClientConnInterface) any { return traits.NewOccupancySensorInfoClient(cc) },
		wrap:   func(s any) wrapped { return occupancysensorpb.WrapInfo(s.(traits.OccupancySensorInfoServer)) },
		unwrap: func(w any) any {
			return w.(interface {
				UnwrapServer() traits.OccupancySensorInfoServer
			}).UnwrapServer()
		},
		register: func(r any, s grpc.ServiceRegistrar) { r.(*occupancysensorpb.InfoRouter).Register(s) },
		add: func(r any, n string, c any) any {
			return iface(r.(*occupancysensorpb.InfoRouter).AddOccupancySensorInfoClient(n, c.(traits.OccupancySensorInfoClient)))
		},
		remove: func(r any, n string) any {
			return iface(r.(*occupancysensorpb.InfoRouter).RemoveOccupancySensorInfoClient(n))
		},
		get: func(r any, n string) (any, error) {
			c, err := r.(*occupancysensorpb.InfoRouter).GetOccupancySensorInfoClient(n)
			return iface(c), err
		},
		calls: map[string]call{
			"DescribeOccupancy": {req: func() proto.Message { return &traits.DescribeOccupancyRequest{} }, unary: func(ctx context.Context, c any, q proto.Message) (proto.Message, error) {
				return msg(c.(traits.OccupancySensorInfoClient).DescribeOccupancy(ctx, q.(*traits.DescribeOccupancyRequest)))
			}},
		},
	},
	{
		name: "onoffpb.ApiRouter", desc: &traits.OnOffApi_ServiceDesc,
		router: func(opts ...router.Option) router.Router { return onoffpb.NewApiRouter(opts...) },
		factory: func(f func(string) (any, error)) router.Option {
			return onoffpb.WithOnOffApiClientFactory(func(n string) (traits.OnOffApiClient, error) { return as[traits.OnOffApiClient](f(n)) })
		},
		client:   func(cc grpc.ClientConnInterface) any { return traits.NewOnOffApiClient(cc) },
		wrap:     func(s any) wrapped { return onoffpb.WrapApi(s.(traits.OnOffApiServer)) },
		unwrap:   func(w any) any { return w.(interface{ UnwrapServer() traits.OnOffApiServer }).UnwrapServer() },
		register: func(r any, s grpc.ServiceRegistrar) { r.(*onoffpb.ApiRouter).Register(s) },
		add: func(r any, n string, c any) any {
			return iface(r.(*onoffpb.ApiRouter).AddOnOffApiClient(n, c.(traits.OnOffApiClient)))
		},
		remove: func(r any, n string) any { return iface(r.(*onoffpb.ApiRouter).RemoveOnOffApiClient(n)) },
		get: func(r any, n string) (any, error) {
			c, err := r.(*onoffpb.ApiRouter).GetOnOffApiClient(n)
			return iface(c), err
		},
		calls: map[string]call{
			"GetOnOff": {req: func() proto.Message { return &traits.GetOnOffRequest{} }, unary: func(ctx context.Context, c any, q proto.Message) (proto.Message, error) {
				return msg(c.(traits.OnOffApiClient).GetOnOff(ctx, q.(*traits.GetOnOffRequest)))
			}},
			"UpdateOnOff": {req: func() proto.Message { return &traits.UpdateOnOffRequest{} }, unary: func(ctx context.Context, c any, q proto.Message) (proto.Message, error) {
				return msg(c.(traits.OnOffApiClient).UpdateOnOff(ctx, q.(*traits.UpdateOnOffRequest)))
			}},
			"PullOnOff": {req: func() proto.Message { return &traits.PullOnOffRequest{} }, res: func() proto.Message { return &traits.PullOnOffResponse{} }, open: func(ctx context.Context, c any, q proto.Message) (grpc.ClientStream, error) {
				return open(c.(traits.OnOffApiClient).PullOnOff(ctx, q.(*traits.PullOnOffRequest)))
			}},
		},
	},
	{
		name: "onoffpb.InfoRouter", desc: &traits.OnOffInfo_ServiceDesc,
		router: func(opts ...router.Option) router.Router { return onoffpb.NewInfoRouter(opts...) },
		factory: func(f func(string) (any, error)) router.Option {
			return onoffpb.WithOnOffInfoClientFactory(func(n string) (traits.OnOffInfoClient, error) { return as[traits.OnOffInfoClient](f(n)) })
		},
		client:   func(cc grpc.ClientConnInterface) any { return traits.NewOnOffInfoClient(cc) },
		wrap:     func(s any) wrapped { return onoffpb.WrapInfo(s.(traits.OnOffInfoServer)) },
		unwrap:   func(w any) any { return w.(interface{ UnwrapServer() traits.OnOffInfoServer }).UnwrapServer() },
		register: func(r any, s grpc.ServiceRegistrar) { r.(*onoffpb.InfoRouter).Register(s) },
		add: func(r any, n string, c any) any {
			return iface(r.(*onoffpb.InfoRouter).AddOnOffInfoClient(n, c.(traits.OnOffInfoClient)))
		},
		remove: func(r any, n string) any { return iface(r.(*onoffpb.InfoRouter).RemoveOnOffInfoClient(n)) },
		get: func(r any, n string) (any, error) {
			c, err := r.(*onoffpb.InfoRouter).GetOnOffInfoClient(n)
			return iface(c), err
		},
		calls: map[string]call{
			"DescribeOnOff": {req: func() proto.Message { return &traits.DescribeOnOffRequest{} }, unary: func(ctx context.Context, c any, q proto.Message) (proto.Message, error) {
				return msg(c.(traits.OnOffInfoClient).DescribeOnOff(ctx, q.(*traits.DescribeOnOffRequest)))
			}},
		},
	},
	{
		name: "openclosepb.ApiRouter", desc: &traits.OpenCloseApi_ServiceDesc,
		router: func(opts ...router.Option) router.Router { return openclosepb.NewApiRouter(opts...) },
		factory: func(f func(string) (any, error)) router.Option {
			return openclosepb.WithOpenCloseApiClientFactory(func(n string) (traits.OpenCloseApiClient, error) { return as[traits.OpenCloseApiClient](f(n)) })
		},
		client: func(cc grpc.ClientConnInterface) any { return traits.NewOpenCloseApiClient(cc) },
		wrap:   func(s any) wrapped { return openclosepb.WrapApi(s.(traits.OpenCloseApiServer)) },
		unwrap: func(w any) any {
			return w.(interface {
				UnwrapServer() traits.OpenCloseApiServer
			}).UnwrapServer()
		},
		register: func(r any, s grpc.ServiceRegistrar) { r.(*openclosepb.ApiRouter).Register(s) },
		add: func(r any, n string, c any) any {
			return iface(r.(*openclosepb.ApiRouter).AddOpenCloseApiClient(n, c.(traits.OpenCloseApiClient)))
		},
		remove: func(r any, n string) any { return iface(r.(*openclosepb.ApiRouter).RemoveOpenCloseApiClient(n)) },
		get: func(r any, n string) (any, error) {
			c, err := r.(*openclosepb.ApiRouter).GetOpenCloseApiClient(n)
			return iface(c), err
		},
		calls: map[string]call{
			"GetPositions": {req: func() proto.Message { return &traits.GetOpenClosePositionsRequest{} }, unary: func(ctx context.Context, c any, q proto.Message) (proto.Message, error) {
				return msg(c.(traits.OpenCloseApiClient).GetPositions(ctx, q.(*traits.GetOpenClosePositionsRequest)))
			}},
			"UpdatePositions": {req: func() proto.Message { return &traits.UpdateOpenClosePositionsRequest{} }, unary: func(ctx context.Context, c any, q proto.Message) (proto.Message, error) {
				return msg(c.(traits.OpenCloseApiClient).UpdatePositions(ctx, q.(*traits.UpdateOpenClosePositionsRequest)))
			}},
			"Stop": {req: func() proto.Message { return &traits.StopOpenCloseRequest{} }, unary: func(ctx context.Context, c any, q proto.Message) (proto.Message, error) {
				return msg(c.(traits.OpenCloseApiClient).Stop(ctx, q.(*traits.StopOpenCloseRequest)))
			}},
			"PullPositions": {req: func() proto.Message { return &traits.PullOpenClosePositionsRequest{} }, res: func() proto.Message { return &traits.PullOpenClosePositionsResponse{} }, open: func(ctx context.Context, c any, q proto.Message) (grpc.ClientStream, error) {
				return open(c.(traits.OpenCloseApiClient).PullPositions(ctx, q.(*traits.PullOpenClosePositionsRequest)))
			}},
		},
	},
	{
		name: "openclosepb.InfoRouter", desc: &traits.OpenCloseInfo_ServiceDesc,
		router: func(opts ...router.Option) router.Router { return openclosepb.NewInfoRouter(opts...) },
		factory: func(f func(string) (any, error)) router.Option {
			return openclosepb.WithOpenCloseInfoClientFactory(func(n string) (traits.OpenCloseInfoClient, error) { return as[traits.OpenCloseInfoClient](f(n)) })
		},
		client: func(cc grpc.ClientConnInterface) any { return traits.NewOpenCloseInfoClient(cc) },
		wrap:   func(s any) wrapped { return openclosepb.WrapInfo(s.(traits.OpenCloseInfoServer)) },
		unwrap: func(w any) any {
			return w.(interface {
				UnwrapServer() traits.OpenCloseInfoServer
			}).UnwrapServer()
		},
		register: func(r any, s grpc.ServiceRegistrar) { r.(*openclosepb.InfoRouter).Register(s) },
		add: func(r any, n string, c any) any {
			return iface(r.(*openclosepb.InfoRouter).AddOpenCloseInfoClient(n, c.(traits.OpenCloseInfoClient)))
		},
		remove: func(r any, n string) any { return iface(r.(*openclosepb.InfoRouter).RemoveOpenCloseInfoClient(n)) },
		get: func(r any, n string) (any, error) {
			c, err := r.(*openclosepb.InfoRouter).GetOpenCloseInfoClient(n)
			return iface(c), err
		},
		calls: map[string]call{
			"DescribePositions": {req: func() proto.Message { return &traits.DescribePositionsRequest{} }, unary: func(ctx context.Context, c any, q proto.Message) (proto.Message, error) {
				return msg(c.(traits.OpenCloseInfoClient).DescribePositions(ctx, q.(*traits.DescribePositionsRequest)))
			}},
		},
	},
	{
		name: "parentpb.ApiRouter", desc: &traits.ParentApi_ServiceDesc,
		router: func(opts ...router.Option) router.Router { return parentpb.NewApiRouter(opts...) },
		factory: func(f func(string) (any, error)) router.Option {
			return parentpb.WithParentApiClientFactory(func(n string) (traits.ParentApiClient, error) { return as[traits.ParentApiClient](f(n)) })
		},
		client:   func(cc grpc.ClientConnInterface) any { return traits.NewParentApiClient(cc) },
		wrap:     func(s any) wrapped { return parentpb.WrapApi(s.(traits.ParentApiServer)) },
		unwrap:   func(w any) any { return w.(interface{ UnwrapServer() traits.ParentApiServer }).UnwrapServer() },
		register: func(r any, s grpc.ServiceRegistrar) { r.(*parentpb.ApiRouter).Register(s) },
		add: func(r any, n string, c any) any {
			return iface(r.(*parentpb.ApiRouter).AddParentApiClient(n, c.(traits.ParentApiClient)))
		},
		remove: func(r any, n string) any { return iface(r.(*parentpb.ApiRouter).RemoveParentApiClient(n)) },
		get: func(r any, n string) (any, error) {
			c, err := r.(*parentpb.ApiRouter).GetParentApiClient(n)
			return iface(c), err
		},
		calls: map[string]call{
			"ListChildren": {req: func() proto.Message { return &traits.ListChildrenRequest{} }, unary: func(ctx context.Context, c any, q proto.Message) (proto.Message, error) {
				return msg(c.(traits.ParentApiClient).ListChildren(ctx, q.(*traits.ListChildrenRequest)))
			}},
			"PullChildren": {req: func() proto.Message { return &traits.PullChildrenRequest{} }, res: func() proto.Message { return &traits.PullChildrenResponse{} }, open: func(ctx context.Context, c any, q proto.Message) (grpc.ClientStream, error) {
				return open(c.(traits.ParentApiClient).PullChildren(ctx, q.(*traits.PullChildrenRequest)))
			}},
		},
	},
	{
		name: "parentpb.InfoRouter", desc: &traits.ParentInfo_ServiceDesc,
		router: func(opts ...router.Option) router.Router { return parentpb.NewInfoRouter(opts...) },
		factory: func(f func(string) (any, error)) router.Option {
			return parentpb.WithParentInfoClientFactory(func(n string) (traits.ParentInfoClient, error) { return as[traits.ParentInfoClient](f(n)) })
		},
		client: func(cc grpc.ClientConnInterface) any { return traits.NewParentInfoClient(cc) },
		wrap:   func(s any) wrapped { return parentpb.WrapInfo(s.(traits.ParentInfoServer)) },
		unwrap: func(w any) any {
			return w.(interface {
				UnwrapServer() traits.ParentInfoServer
			}).UnwrapServer()
		},
		register: func(r any, s grpc.ServiceRegistrar) { r.(*parentpb.InfoRouter).Register(s) },
		add: func(r any, n string, c any) any {
			return iface(r.(*parentpb.InfoRouter).AddParentInfoClient(n, c.(traits.ParentInfoClient)))
		},
		remove: func(r any, n string) any { return iface(r.(*parentpb.InfoRouter).RemoveParentInfoClient(n)) },
		get: func(r any, n string) (any, error) {
			c, err := r.(*parentpb.InfoRouter).GetParentInfoClient(n)
			return iface(c), err
		},
		calls: map[string]call{},
	},
	{
		name: "presspb.ApiRouter", desc: &traits.PressApi_ServiceDesc,
		router: func(opts ...router.Option) router.Router { return presspb.NewApiRouter(opts...) },
		factory: func(f func(string) (any, error)) router.Option {
			return presspb.WithPressApiClientFactory(func(n string) (traits.PressApiClient, error) { return as[traits.PressApiClient](f(n)) })
		},
		client:   func(cc grpc.ClientConnInterface) any { return traits.NewPressApiClient(cc) },
		wrap:     func(s any) wrapped { return presspb.WrapApi(s.(traits.PressApiServer)) },
		unwrap:   func(w any) any { return w.(interface{ UnwrapServer() traits.PressApiServer }).UnwrapServer() },
		register: func(r any, s grpc.ServiceRegistrar) { r.(*presspb.ApiRouter).Register(s) },
		add: func(r any, n string, c any) any {
			return iface(r.(*presspb.ApiRouter).AddPressApiClient(n, c.(traits.PressApiClient)))
		},
		remove: func(r any, n string) any { return iface(r.(*presspb.ApiRouter).RemovePressApiClient(n)) },
		get: func(r any, n string) (any, error) {
			c, err := r.(*presspb.ApiRouter).GetPressApiClient(n)
			return iface(c), err
		},
		calls: map[string]call{
			"GetPressedState": {req: func() proto.Message { return &traits.GetPressedStateRequest{} }, unary: func(ctx context.Context, c any, q proto.Message) (proto.Message, error) {
				return msg(c.(traits.PressApiClient).GetPressedState(ctx, q.(*traits.GetPressedStateRequest)))
			}},
			"PullPressedState": {req: func() proto.Message { return &traits.PullPressedStateRequest{} }, res: func() proto.Message { return &traits.PullPressedStateResponse{} }, open: func(ctx context.Context, c any, q proto.Message) (grpc.ClientStream, error) {
				return open(c.(traits.PressApiClient).PullPressedState(ctx, q.(*traits.PullPressedStateRequest)))
			}},
			"UpdatePressedState": {req: func() proto.Message { return &traits.UpdatePressedStateRequest{} }, unary: func(ctx context.Context, c any, q proto.Message) (proto.Message, error) {
				return msg(c.(traits.PressApiClient).UpdatePressedState(ctx, q.(*traits.UpdatePressedStateRequest)))
			}},
		},
	},
	{
		name: "ptzpb.ApiRouter", desc: &traits.PtzApi_ServiceDesc,
		router: func(opts ...router.Option) router.Router { return ptzpb.NewApiRouter(opts...) },
		factory: func(f func(string) (any, error)) router.Option {
			return ptzpb.WithPtzApiClientFactory(func(n string) (traits.PtzApiClient, error) { return as[traits.PtzApiClient](f(n)) })
		},
		client:   func(cc grpc.ClientConnInterface) any { return traits.NewPtzApiClient(cc) },
		wrap:     func(s any) wrapped { return ptzpb.WrapApi(s.(traits.PtzApiServer)) },
		unwrap:   func(w any) any { return w.(interface{ UnwrapServer() traits.PtzApiServer }).UnwrapServer() },
		register: func(r any, s grpc.ServiceRegistrar) { r.(*ptzpb.ApiRouter).Register(s) },
		add: func(r any, n string, c any) any {
			return iface(r.(*ptzpb.ApiRouter).AddPtzApiClient(n, c.(traits.PtzApiClient)))
		},
		remove: func(r any, n string) any { return iface(r.(*ptzpb.ApiRouter).RemovePtzApiClient(n)) },
		get: func(r any, n string) (any, error) {
			c, err := r.(*ptzpb.ApiRouter).GetPtzApiClient(n)
			return iface(c), err
		},
		calls: map[string]call{
			"GetPtz": {req: func() proto.Message { return &traits.GetPtzRequest{} }, unary: func(ctx context.Context, c any, q proto.Message) (proto.Message, error) {
				return msg(c.(traits.PtzApiClient).GetPtz(ctx, q.(*traits.GetPtzRequest)))
			}},
			"UpdatePtz": {req: func() proto.Message { return &traits.UpdatePtzRequest{} }, unary: func(ctx context.Context, c any, q proto.Message) (proto.Message, error) {
				return msg(c.(traits.PtzApiClient).UpdatePtz(ctx, q.(*traits.UpdatePtzRequest)))
			}},
			"Stop": {req: func() proto.Message { return &traits.StopPtzRequest{} }, unary: func(ctx context.Context, c any, q proto.Message) (proto.Message, error) {
				return msg(c.(traits.PtzApiClient).Stop(ctx, q.(*traits.StopPtzRequest)))
			}},
			"CreatePreset": {req: func() proto.Message { return &traits.CreatePtzPresetRequest{} }, unary: func(ctx context.Context, c any, q proto.Message) (proto.Message, error) {
				return msg(c.(traits.PtzApiClient).CreatePreset(ctx, q.(*traits.CreatePtzPresetRequest)))
			}},
			"PullPtz": {req: func() proto.Message { return &traits.PullPtzRequest{} }, res: func() proto.Message { return &traits.PullPtzResponse{} }, open: func(ctx context.Context, c any, q proto.Message) (grpc.ClientStream, error) {
				return open(c.(traits.PtzApiClient).PullPtz(ctx, q.(*traits.PullPtzRequest)))
			}},
		},
	},
	{
		name: "ptzpb.InfoRouter", desc: &traits.PtzInfo_ServiceDesc,
		router: func(opts ...router.Option) router.Router { return ptzpb.NewInfoRouter(opts...) },
		factory: func(f func(string) (any, error)) router.Option {
			return ptzpb.WithPtzInfoClientFactory(func(n string) (traits.PtzInfoClient, error) { return as[traits.PtzInfoClient](f(n)) })
		},
		client:   func(cc grpc.ClientConnInterface) any { return traits.NewPtzInfoClient(cc) },
		wrap:     func(s any) wrapped { return ptzpb.WrapInfo(s.(traits.PtzInfoServer)) },
		unwrap:   func(w any) any { return w.(interface{ UnwrapServer() traits.PtzInfoServer }).UnwrapServer() },
		register: func(r any, s grpc.ServiceRegistrar) { r.(*ptzpb.InfoRouter).Register(s) },
		add: func(r any, n string, c any) any {
			return iface(r.(*ptzpb.InfoRouter).AddPtzInfoClient(n, c.(traits.PtzInfoClient)))
		},
		remove: func(r any, n string) any { return iface(r.(*ptzpb.InfoRouter).RemovePtzInfoClient(n)) },
		get: func(r any, n string) (any, error) {
			c, err := r.(*ptzpb.InfoRouter).GetPtzInfoClient(n)
			return iface(c), err
		},
		calls: map[string]call{
			"DescribePtz": {req: func() proto.Message { return &traits.DescribePtzRequest{} }, unary: func(ctx context.Context, c any, q proto.Message) (proto.Message, error) {
				return msg(c.(traits.PtzInfoClient).DescribePtz(ctx, q.(*traits.DescribePtzRequest)))
			}},
		},
	},
	{
		name: "publicationpb.ApiRouter", desc: &traits.PublicationApi_ServiceDesc,
		router: func(opts ...router.Option) router.Router { return publicationpb.NewApiRouter(opts...) },
		factory: func(f func(string) (any, error)) router.Option {
			return publicationpb.WithPublicationApiClientFactory(func(n string) (traits.PublicationApiClient, error) { return as[traits.PublicationApiClient](f(n)) })
		},
		client: func(cc grpc.ClientConnInterface) any { return traits.NewPublicationApiClient(cc) },
		wrap:   func(s any) wrapped { return publicationpb.WrapApi(s.(traits.PublicationApiServer)) },
		unwrap: func(w any) any {
			return w.(interface {
				UnwrapServer() traits.PublicationApiServer
			}).UnwrapServer()
		},
		register: func(r any, s grpc.ServiceRegistrar) { r.(*publicationpb.ApiRouter).Register(s) },
		add: func(r any, n string, c any) any {
			return iface(r.(*publicationpb.ApiRouter).AddPublicationApiClient(n, c.(traits.PublicationApiClient)))
		},
		remove: func(r any, n string) any { return iface(r.(*publicationpb.ApiRouter).RemovePublicationApiClient(n)) },
		get: func(r any, n string) (any, error) {
			c, err := r.(*publicationpb.ApiRouter).GetPublicationApiClient(n)
			return iface(c), err
		},
		calls: map[string]call{
			"CreatePublication": {req: func() proto.Message { return &traits.CreatePublicationRequest{} }, unary: func(ctx context.Context, c any, q proto.Message) (proto.Message, error) {
				return msg(c.(traits.PublicationApiClient).CreatePublication(ctx, q.(*traits.CreatePublicationRequest)))
			}},
			"GetPublication": {req: func() proto.Message { return &traits.GetPublicationRequest{} }, unary: func(ctx context.Context, c any, q proto.Message) (proto.Message, error) {
				return msg(c.(traits.PublicationApiClient).GetPublication(ctx, q.(*traits.GetPublicationRequest)))
			}},
			"UpdatePublication": {req: func() proto.Message { return &traits.UpdatePublicationRequest{} }, unary: func(ctx context.Context, c any, q proto.Message) (proto.Message, error) {
				return msg(c.(traits.PublicationApiClient).UpdatePublication(ctx, q.(*traits.UpdatePublicationRequest)))
			}},
			"DeletePublication": {req: func() proto.Message { return &traits.DeletePublicationRequest{} }, unary: func(ctx context.Context, c any, q proto.Message) (proto.Message, error) {
				return msg(c.(traits.PublicationApiClient).DeletePublication(ctx, q.(*traits.DeletePublicationRequest)))
			}},
			"PullPublication": {req: func() proto.Message { return &traits.PullPublicationRequest{} }, res: func() proto.Message { return &traits.PullPublicationResponse{} }, open: func(ctx context.Context, c any, q proto.Message) (grpc.ClientStream, error) {
				return open(c.(traits.PublicationApiClient).PullPublication(ctx, q.(*traits.PullPublicationRequest)))
			}},
			"ListPublications": {req: func() proto.Message { return &traits.ListPublicationsRequest{} }, unary: func(ctx context.Context, c any, q proto.Message) (proto.Message, error) {
				return msg(c.(traits.PublicationApiClient).ListPublications(ctx, q.(*traits.ListPublicationsRequest)))
			}},
			"PullPublications": {req: func() proto.Message { return &traits.PullPublicationsRequest{} }, res: func() proto.Message { return &traits.PullPublicationsResponse{} }, open: func(ctx context.Context, c any, q proto.Message) (grpc.ClientStream, error) {
				return open(c.(traits.PublicationApiClient).PullPublications(ctx, q.(*traits.PullPublicationsRequest)))
			}},
			"AcknowledgePublication": {req: func() proto.Message { return &traits.AcknowledgePublicationRequest{} }, unary: func(ctx context.Context, c any, q proto.Message) (proto.Message, error) {
				return msg(c.(traits.PublicationApiClient).AcknowledgePublication(ctx, q.(*traits.AcknowledgePublicationRequest)))
			}},
		},
	},
	{
		name: "speakerpb.ApiRouter", desc: &traits.SpeakerApi_ServiceDesc,
		router: func(opts ...router.Option) router.Router { return speakerpb.NewApiRouter(opts...) },
		factory: func(f func(string) (any, error)) router.Option {
			return speakerpb.WithSpeakerApiClientFactory(func(n string) (traits.SpeakerApiClient, error) { return as[traits.SpeakerApiClient](f(n)) })
		},
		client: func(cc grpc.ClientConnInterface) any { return traits.NewSpeakerApiClient(cc) },
		wrap:   func(s any) wrapped { return speakerpb.WrapApi(s.(traits.SpeakerApiServer)) },
		unwrap: func(w any) any {
			return w.(interface {
				UnwrapServer() traits.SpeakerApiServer
			}).UnwrapServer()
		},
		register: func(r any, s grpc.ServiceRegistrar) { r.(*speakerpb.ApiRouter).Register(s) },
		add: func(r any, n string, c any) any {
			return iface(r.(*speakerpb.ApiRouter).AddSpeakerApiClient(n, c.(traits.SpeakerApiClient)))
		},
		remove: func(r any, n string) any { return iface(r.(*speakerpb.ApiRouter).RemoveSpeakerApiClient(n)) },
		get: func(r any, n string) (any, error) {
			c, err := r.(*speakerpb.ApiRouter).GetSpeakerApiClient(n)
			return iface(c), err
		},
		calls: map[string]call{
			"GetVolume": {req: func() proto.Message { return &traits.GetSpeakerVolumeRequest{} }, unary: func(ctx context.Context, c any, q proto.Message) (proto.Message, error) {
				return msg(c.(traits.SpeakerApiClient).GetVolume(ctx, q.(*traits.GetSpeakerVolumeRequest)))
			}},
			"UpdateVolume": {req: func() proto.Message { return &traits.UpdateSpeakerVolumeRequest{} }, unary: func(ctx context.Context, c any, q proto.Message) (proto.Message, error) {
				return msg(c.(traits.SpeakerApiClient).UpdateVolume(ctx, q.(*traits.UpdateSpeakerVolumeRequest)))
			}},
			"PullVolume": {req: func() proto.Message { return &traits.PullSpeakerVolumeRequest{} }, res: func() proto.Message { return &traits.PullSpeakerVolumeResponse{} }, open: func(ctx context.Context, c any, q proto.Message) (grpc.ClientStream, error) {
				return open(c.(traits.SpeakerApiClient).PullVolume(ctx, q.(*traits.PullSpeakerVolumeRequest)))
			}},
		},
	},
	{
		name: "speakerpb.InfoRouter", desc: &traits.SpeakerInfo_ServiceDesc,
		router: func(opts ...router.Option) router.Router { return speakerpb.NewInfoRouter(opts...) },
		factory: func(f func(string) (any, error)) router.Option {
			return speakerpb.WithSpeakerInfoClientFactory(func(n string) (traits.SpeakerInfoClient, error) { return as[traits.SpeakerInfoClient](f(n)) })
		},
		client: func(cc grpc.ClientConnInterface) any { return traits.NewSpeakerInfoClient(cc) },
		wrap:   func(s any) wrapped { return speakerpb.WrapInfo(s.(traits.SpeakerInfoServer)) },
		unwrap: func(w any) any {
			return w.(interface {
				UnwrapServer() traits.SpeakerInfoServer
			}).UnwrapServer()
		},
		register: func(r any, s grpc.ServiceRegistrar) { r.(*speakerpb.InfoRouter).Register(s) },
		add: func(r any, n string, c any) any {
			return iface(r.(*speakerpb.InfoRouter).AddSpeakerInfoClient(n, c.(traits.SpeakerInfoClient)))
		},
		remove: func(r any, n string) any { return iface(r.(*speakerpb.InfoRouter).RemoveSpeakerInfoClient(n)) },
		get: func(r any, n string) (any, error) {
			c, err := r.(*speakerpb.InfoRouter).GetSpeakerInfoClient(n)
			return iface(c), err
		},
		calls: map[string]call{
			"DescribeVolume": {req: func() proto.Message { return &traits.DescribeVolumeRequest{} }, unary: func(ctx context.Context, c any, q proto.Message) (proto.Message, error) {
				return msg(c.(traits.SpeakerInfoClient).DescribeVolume(ctx, q.(*traits.DescribeVolumeRequest)))
			}},
		},
	},
	{
		name: "temperaturepb.ApiRouter", desc: &traits.TemperatureApi_ServiceDesc,
		router: func(opts ...router.Option) router.Router { return temperaturepb.NewApiRouter(opts...) },
		factory: func(f func(string) (any, error)) router.Option {
			return temperaturepb.WithTemperatureApiClientFactory(func(n string) (traits.TemperatureApiClient, error) { return as[traits.TemperatureApiClient](f(n)) })
		},
		client: func(cc grpc.ClientConnInterface) any { return traits.NewTemperatureApiClient(cc) },
		wrap:   func(s any) wrapped { return temperaturepb.WrapApi(s.(traits.TemperatureApiServer)) },
		unwrap: func(w any) any {
			return w.(interface {
				UnwrapServer() traits.TemperatureApiServer
			}).UnwrapServer()
		},
		register: func(r any, s grpc.ServiceRegistrar) { r.(*temperaturepb.ApiRouter).Register(s) },
		add: func(r any, n string, c any) any {
			return iface(r.(*temperaturepb.ApiRouter).AddTemperatureApiClient(n, c.(traits.TemperatureApiClient)))
		},
		remove: func(r any, n string) any { return iface(r.(*temperaturepb.ApiRouter).RemoveTemperatureApiClient(n)) },
		get: func(r any, n string) (any, error) {
			c, err := r.(*temperaturepb.ApiRouter).GetTemperatureApiClient(n)
			return iface(c), err
		},
		calls: map[string]call{
			"GetTemperature": {req: func() proto.Message { return &traits.GetTemperatureRequest{} }, unary: func(ctx context.Context, c any, q proto.Message) (proto.Message, error) {
				return msg(c.(traits.TemperatureApiClient).GetTemperature(ctx, q.(*traits.GetTemperatureRequest)))
			}},
			"PullTemperature": {req: func() proto.Message { return &traits.PullTemperatureRequest{} }, res: func() proto.Message { return &traits.PullTemperatureResponse{} }, open: func(ctx context.Context, c any, q proto.Message) (grpc.ClientStream, error) {
				return open(c.(traits.TemperatureApiClient).PullTemperature(ctx, q.(*traits.PullTemperatureRequest)))
			}},
			"UpdateTemperature": {req: func() proto.Message { return &traits.UpdateTemperatureRequest{} }, unary: func(ctx context.Context, c any, q proto.Message) (proto.Message, error) {
				return msg(c.(traits.TemperatureApiClient).UpdateTemperature(ctx, q.(*traits.UpdateTemperatureRequest)))
			}},
		},
	},
	{
		name: "vendingpb.ApiRouter", desc: &traits.VendingApi_ServiceDesc,
		router: func(opts ...router.Option) router.Router { return vendingpb.NewApiRouter(opts...) },
		factory: func(f func(string) (any, error)) router.Option {
			return vendingpb.WithVendingApiClientFactory(func(n string) (traits.VendingApiClient, error) { return as[traits.VendingApiClient](f(n)) })
		},
		client: func(cc grpc.ClientConnInterface) any { return traits.NewVendingApiClient(cc) },
		wrap:   func(s any) wrapped { return vendingpb.WrapApi(s.(traits.VendingApiServer)) },
		unwrap: func(w any) any {
			return w.(interface {
				UnwrapServer() traits.VendingApiServer
			}).UnwrapServer()
		},
		register: func(r any, s grpc.ServiceRegistrar) { r.(*vendingpb.ApiRouter).Register(s) },
		add: func(r any, n string, c any) any {
			return iface(r.(*vendingpb.ApiRouter).AddVendingApiClient(n, c.(traits.VendingApiClient)))
		},
		remove: func(r any, n string) any { return iface(r.(*vendingpb.ApiRouter).RemoveVendingApiClient(n)) },
		get: func(r any, n string) (any, error) {
			c, err := r.(*vendingpb.ApiRouter).GetVendingApiClient(n)
			return iface(c), err
		},
		calls: map[string]call{
			"ListConsumables": {req: func() proto.Message { return &traits.ListConsumablesRequest{} }, unary: func(ctx context.Context, c any, q proto.Message) (proto.Message, error) {
				return msg(c.(traits.VendingApiClient).ListConsumables(ctx, q.(*traits.ListConsumablesRequest)))
			}},
			"PullConsumables": {req: func() proto.Message { return &traits.PullConsumablesRequest{} }, res: func() proto.Message { return &traits.PullConsumablesResponse{} }, open: func(ctx context.Context, c any, q proto.Message) (grpc.ClientStream, error) {
				return open(c.(traits.VendingApiClient).PullConsumables(ctx, q.(*traits.PullConsumablesRequest)))
			}},
			"GetStock": {req: func() proto.Message { return &traits.GetStockRequest{} }, unary: func(ctx context.Context, c any, q proto.Message) (proto.Message, error) {
				return msg(c.(traits.VendingApiClient).GetStock(ctx, q.(*traits.GetStockRequest)))
			}},
			"UpdateStock": {req: func() proto.Message { return &traits.UpdateStockRequest{} }, unary: func(ctx context.Context, c any, q proto.Message) (proto.Message, error) {
				return msg(c.(traits.VendingApiClient).UpdateStock(ctx, q.(*traits.UpdateStockRequest)))
			}},
			"PullStock": {req: func() proto.Message { return &traits.PullStockRequest{} }, res: func() proto.Message { return &traits.PullStockResponse{} }, open: func(ctx context.Context, c any, q proto.Message) (grpc.ClientStream, error) {
				return open(c.(traits.VendingApiClient).PullStock(ctx, q.(*traits.PullStockRequest)))
			}},
			"ListInventory": {req: func() proto.Message { return &traits.ListInventoryRequest{} }, unary: func(ctx context.Context, c any, q proto.Message) (proto.Message, error) {
				return msg(c.(traits.VendingApiClient).ListInventory(ctx, q.(*traits.ListInventoryRequest)))
			}},
			"PullInventory": {req: func() proto.Message { return &traits.PullInventoryRequest{} }, res: func() proto.Message { return &traits.PullInventoryResponse{} }, open: func(ctx context.Context, c any, q proto.Message) (grpc.ClientStream, error) {
				return open(c.(traits.VendingApiClient).PullInventory(ctx, q.(*traits.PullInventoryRequest)))
			}},
			"Dispense": {req: func() proto.Message { return &traits.DispenseRequest{} }, unary: func(ctx context.Context, c any, q proto.Message) (proto.Message, error) {
				return msg(c.(traits.VendingApiClient).Dispense(ctx, q.(*traits.DispenseRequest)))
			}},
			"StopDispense": {req: func() proto.Message { return &traits.StopDispenseRequest{} }, unary: func(ctx context.Context, c any, q proto.Message) (proto.Message, error) {
				return msg(c.(traits.VendingApiClient).StopDispense(ctx, q.(*traits.StopDispenseRequest)))
			}},
		},
	},
	{
		name: "vendingpb.InfoRouter", desc: &traits.VendingInfo_ServiceDesc,
		router: func(opts ...router.Option) router.Router { return vendingpb.NewInfoRouter(opts...) },
		factory: func(f func(string) (any, error)) router.Option {
			return vendingpb.WithVendingInfoClientFactory(func(n string) (traits.VendingInfoClient, error) { return as[traits.VendingInfoClient](f(n)) })
		},
		client: func(cc grpc.ClientConnInterface) any { return traits.NewVendingInfoClient(cc) },
		wrap:   func(s any) wrapped { return vendingpb.WrapInfo(s.(traits.VendingInfoServer)) },
		unwrap: func(w any) any {
			return w.(interface {
				UnwrapServer() traits.VendingInfoServer
			}).UnwrapServer()
		},
		register: func(r any, s grpc.ServiceRegistrar) { r.(*vendingpb.InfoRouter).Register(s) },
		add: func(r any, n string, c any) any {
			return iface(r.(*vendingpb.InfoRouter).AddVendingInfoClient(n, c.(traits.VendingInfoClient)))
		},
		remove: func(r any, n string) any { return iface(r.(*vendingpb.InfoRouter).RemoveVendingInfoClient(n)) },
		get: func(r any, n string) (any, error) {
			c, err := r.(*vendingpb.InfoRouter).GetVendingInfoClient(n)
			return iface(c), err
		},
		calls: map[string]call{},
	},
	{
		name: "wastepb.ApiRouter", desc: &traits.WasteApi_ServiceDesc,
		router: func(opts ...router.Option) router.Router { return wastepb.NewApiRouter(opts...) },
		factory: func(f func(string) (any, error)) router.Option {
			return wastepb.WithWasteApiClientFactory(func(n string) (traits.WasteApiClient, error) { return as[traits.WasteApiClient](f(n)) })
		},
		client:   func(cc grpc.ClientConnInterface) any { return traits.NewWasteApiClient(cc) },
		wrap:     func(s any) wrapped { return wastepb.WrapApi(s.(traits.WasteApiServer)) },
		unwrap:   func(w any) any { return w.(interface{ UnwrapServer() traits.WasteApiServer }).UnwrapServer() },
		register: func(r any, s grpc.ServiceRegistrar) { r.(*wastepb.ApiRouter).Register(s) },
		add: func(r any, n string, c any) any {
			return iface(r.(*wastepb.ApiRouter).AddWasteApiClient(n, c.(traits.WasteApiClient)))
		},
		remove: func(r any, n string) any { return iface(r.(*wastepb.ApiRouter).RemoveWasteApiClient(n)) },
		get: func(r any, n string) (any, error) {
			c, err := r.(*wastepb.ApiRouter).GetWasteApiClient(n)
			return iface(c), err
		},
		calls: map[string]call{
			"ListWasteRecords": {req: func() proto.Message { return &traits.ListWasteRecordsRequest{} }, unary: func(ctx context.Context, c any, q proto.Message) (proto.Message, error) {
				return msg(c.(traits.WasteApiClient).ListWasteRecords(ctx, q.(*traits.ListWasteRecordsRequest)))
			}},
			"PullWasteRecords": {req: func() proto.Message { return &traits.PullWasteRecordsRequest{} }, res: func() proto.Message { return &traits.PullWasteRecordsResponse{} }, open: func(ctx context.Context, c any, q proto.Message) (grpc.ClientStream, error) {
				return open(c.(traits.WasteApiClient).PullWasteRecords(ctx, q.(*traits.PullWasteRecordsRequest)))
			}},
		},
	},
	{
		name: "wastepb.InfoRouter", desc: &traits.WasteInfo_ServiceDesc,
		router: func(opts ...router.Option) router.Router { return wastepb.NewInfoRouter(opts...) },
		factory: func(f func(string) (any, error)) router.Option {
			return wastepb.WithWasteInfoClientFactory(func(n string) (traits.WasteInfoClient, error) { return as[traits.WasteInfoClient](f(n)) })
		},
		client:   func(cc grpc.ClientConnInterface) any { return traits.NewWasteInfoClient(cc) },
		wrap:     func(s any) wrapped { return wastepb.WrapInfo(s.(traits.WasteInfoServer)) },
		unwrap:   func(w any) any { return w.(interface{ UnwrapServer() traits.WasteInfoServer }).UnwrapServer() },
		register: func(r any, s grpc.ServiceRegistrar) { r.(*wastepb.InfoRouter).Register(s) },
		add: func(r any, n string, c any) any {
			return iface(r.(*wastepb.InfoRouter).AddWasteInfoClient(n, c.(traits.WasteInfoClient)))
		},
		remove: func(r any, n string) any { return iface(r.(*wastepb.InfoRouter).RemoveWasteInfoClient(n)) },
		get: func(r any, n string) (any, error) {
			c, err := r.(*wastepb.InfoRouter).GetWasteInfoClient(n)
			return iface(c), err
		},
		calls: map[string]call{
			"DescribeWasteRecord": {req: func() proto.Message { return &traits.DescribeWasteRecordRequest{} }, unary: func(ctx context.Context, c any, q proto.Message) (proto.Message, error) {
				return msg(c.(traits.WasteInfoClient).DescribeWasteRecord(ctx, q.(*traits.DescribeWasteRecordRequest)))
			}},
		},
	},
}
