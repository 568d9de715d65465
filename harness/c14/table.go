// Code generated by gen_table.py; DO NOT EDIT.

package c14

import (
	"context"

	"github.com/smart-core-os/sc-api/go/traits"
	"google.golang.org/grpc"
	"google.golang.org/protobuf/proto"

	"github.com/smart-core-os/sc-golang/pkg/router"
	"github.com/smart-core-os/sc-golang/pkg/trait/accesspb"
	"github.com/smart-core-os/sc-golang/pkg/trait/airqualitysensorpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/airtemperaturepb"
	"github.com/smart-core-os/sc-golang/pkg/trait/bookingpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/countpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/electricpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/emergencypb"
	"github.com/smart-core-os/sc-golang/pkg/trait/energystoragepb"
	"github.com/smart-core-os/sc-golang/pkg/trait/enterleavesensorpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/fanspeedpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/hailpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/lightpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/metadatapb"
	"github.com/smart-core-os/sc-golang/pkg/trait/meterpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/modepb"
	"github.com/smart-core-os/sc-golang/pkg/trait/occupancysensorpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/onoffpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/openclosepb"
	"github.com/smart-core-os/sc-golang/pkg/trait/parentpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/presspb"
	"github.com/smart-core-os/sc-golang/pkg/trait/publicationpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/speakerpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/vendingpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/wastepb"
)

var services = []*service{
	{
		name: "accesspb.ApiRouter", desc: &traits.AccessApi_ServiceDesc,
		router: func(opts ...router.Option) router.Router { return accesspb.NewApiRouter(opts...) },
		wrap:   func(s any) any { return accesspb.WrapApi(s.(traits.AccessApiServer)) },
		add: func(r any, n string, c any) any {
			return iface(r.(*accesspb.ApiRouter).AddAccessApiClient(n, c.(traits.AccessApiClient)))
		},
		calls: map[string]call{
			"GetLastAccessAttempt": {req: func() proto.Message { return &traits.GetLastAccessAttemptRequest{} }, unary: func(ctx context.Context, c any, q proto.Message) (proto.Message, error) {
				return msg(c.(traits.AccessApiClient).GetLastAccessAttempt(ctx, q.(*traits.GetLastAccessAttemptRequest)))
			}},
			"PullAccessAttempts": {req: func() proto.Message { return &traits.PullAccessAttemptsRequest{} }, res: func() proto.Message { return &traits.PullAccessAttemptsResponse{} }, open: func(ctx context.Context, c any, q proto.Message) (grpc.ClientStream, error) {
				return open(c.(traits.AccessApiClient).PullAccessAttempts(ctx, q.(*traits.PullAccessAttemptsRequest)))
			}},
		},
	},
	{
		name: "airqualitysensorpb.ApiRouter", desc: &traits.AirQualitySensorApi_ServiceDesc,
		router: func(opts ...router.Option) router.Router { return airqualitysensorpb.NewApiRouter(opts...) },
		wrap:   func(s any) any { return airqualitysensorpb.WrapApi(s.(traits.AirQualitySensorApiServer)) },
		add: func(r any, n string, c any) any {
			return iface(r.(*airqualitysensorpb.ApiRouter).AddAirQualitySensorApiClient(n, c.(traits.AirQualitySensorApiClient)))
		},
		calls: map[string]call{
			"GetAirQuality": {req: func() proto.Message { return &traits.GetAirQualityRequest{} }, unary: func(ctx context.Context, c any, q proto.Message) (proto.Message, error) {
				return msg(c.(traits.AirQualitySensorApiClient).GetAirQuality(ctx, q.(*traits.GetAirQualityRequest)))
			}},
			"PullAirQuality": {req: func() proto.Message { return &traits.PullAirQualityRequest{} }, res: func() proto.Message { return &traits.PullAirQualityResponse{} }, open: func(ctx context.Context, c any, q proto.Message) (grpc.ClientStream, error) {
				return open(c.(traits.AirQualitySensorApiClient).PullAirQuality(ctx, q.(*traits.PullAirQualityRequest)))
			}},
		},
	},
	{
		name: "airtemperaturepb.ApiRouter", desc: &traits.AirTemperatureApi_ServiceDesc,
		router: func(opts ...router.Option) router.Router { return airtemperaturepb.NewApiRouter(opts...) },
		wrap:   func(s any) any { return airtemperaturepb.WrapApi(s.(traits.AirTemperatureApiServer)) },
		add: func(r any, n string, c any) any {
			return iface(r.(*airtemperaturepb.ApiRouter).AddAirTemperatureApiClient(n, c.(traits.AirTemperatureApiClient)))
		},
		calls: map[string]call{
			"GetAirTemperature": {req: func() proto.Message { return &traits.GetAirTemperatureRequest{} }, unary: func(ctx context.Context, c any, q proto.Message) (proto.Message, error) {
				return msg(c.(traits.AirTemperatureApiClient).GetAirTemperature(ctx, q.(*traits.GetAirTemperatureRequest)))
			}},
			"UpdateAirTemperature": {req: func() proto.Message { return &traits.UpdateAirTemperatureRequest{} }, unary: func(ctx context.Context, c any, q proto.Message) (proto.Message, error) {
				return msg(c.(traits.AirTemperatureApiClient).UpdateAirTemperature(ctx, q.(*traits.UpdateAirTemperatureRequest)))
			}},
			"PullAirTemperature": {req: func() proto.Message { return &traits.PullAirTemperatureRequest{} }, res: func() proto.Message { return &traits.PullAirTemperatureResponse{} }, open: func(ctx context.Context, c any, q proto.Message) (grpc.ClientStream, error) {
				return open(c.(traits.AirTemperatureApiClient).PullAirTemperature(ctx, q.(*traits.PullAirTemperatureRequest)))
			}},
		},
	},
	{
		name: "bookingpb.ApiRouter", desc: &traits.BookingApi_ServiceDesc,
		router: func(opts ...router.Option) router.Router { return bookingpb.NewApiRouter(opts...) },
		wrap:   func(s any) any { return bookingpb.WrapApi(s.(traits.BookingApiServer)) },
		add: func(r any, n string, c any) any {
			return iface(r.(*bookingpb.ApiRouter).AddBookingApiClient(n, c.(traits.BookingApiClient)))
		},
		calls: map[string]call{
			"ListBookings": {req: func() proto.Message { return &traits.ListBookingsRequest{} }, unary: func(ctx context.Context, c any, q proto.Message) (proto.Message, error) {
				return msg(c.(traits.BookingApiClient).ListBookings(ctx, q.(*traits.ListBookingsRequest)))
			}},
			"CheckInBooking": {req: func() proto.Message { return &traits.CheckInBookingRequest{} }, unary: func(ctx context.Context, c any, q proto.Message) (proto.Message, error) {
				return msg(c.(traits.BookingApiClient).CheckInBooking(ctx, q.(*traits.CheckInBookingRequest)))
			}},
			"CheckOutBooking": {req: func() proto.Message { return &traits.CheckOutBookingRequest{} }, unary: func(ctx context.Context, c any, q proto.Message) (proto.Message, error) {
				return msg(c.(traits.BookingApiClient).CheckOutBooking(ctx, q.(*traits.CheckOutBookingRequest)))
			}},
			"CreateBooking": {req: func() proto.Message { return &traits.CreateBookingRequest{} }, unary: func(ctx context.Context, c any, q proto.Message) (proto.Message, error) {
				return msg(c.(traits.BookingApiClient).CreateBooking(ctx, q.(*traits.CreateBookingRequest)))
			}},
			"UpdateBooking": {req: func() proto.Message { return &traits.UpdateBookingRequest{} }, unary: func(ctx context.Context, c any, q proto.Message) (proto.Message, error) {
				return msg(c.(traits.BookingApiClient).UpdateBooking(ctx, q.(*traits.UpdateBookingRequest)))
			}},
			"PullBookings": {req: func() proto.Message { return &traits.ListBookingsRequest{} }, res: func() proto.Message { return &traits.PullBookingsResponse{} }, open: func(ctx context.Context, c any, q proto.Message) (grpc.ClientStream, error) {
				return open(c.(traits.BookingApiClient).PullBookings(ctx, q.(*traits.ListBookingsRequest)))
			}},
		},
	},
	{
		name: "countpb.ApiRouter", desc: &traits.CountApi_ServiceDesc,
		router: func(opts ...router.Option) router.Router { return countpb.NewApiRouter(opts...) },
		wrap:   func(s any) any { return countpb.WrapApi(s.(traits.CountApiServer)) },
		add: func(r any, n string, c any) any {
			return iface(r.(*countpb.ApiRouter).AddCountApiClient(n, c.(traits.CountApiClient)))
		},
		calls: map[string]call{
			"GetCount": {req: func() proto.Message { return &traits.GetCountRequest{} }, unary: func(ctx context.Context, c any, q proto.Message) (proto.Message, error) {
				return msg(c.(traits.CountApiClient).GetCount(ctx, q.(*traits.GetCountRequest)))
			}},
			"ResetCount": {req: func() proto.Message { return &traits.ResetCountRequest{} }, unary: func(ctx context.Context, c any, q proto.Message) (proto.Message, error) {
				return msg(c.(traits.CountApiClient).ResetCount(ctx, q.(*traits.ResetCountRequest)))
			}},
			"UpdateCount": {req: func() proto.Message { return &traits.UpdateCountRequest{} }, unary: func(ctx context.Context, c any, q proto.Message) (proto.Message, error) {
				return msg(c.(traits.CountApiClient).UpdateCount(ctx, q.(*traits.UpdateCountRequest)))
			}},
			"PullCounts": {req: func() proto.Message { return &traits.PullCountsRequest{} }, res: func() proto.Message { return &traits.PullCountsResponse{} }, open: func(ctx context.Context, c any, q proto.Message) (grpc.ClientStream, error) {
				return open(c.(traits.CountApiClient).PullCounts(ctx, q.(*traits.PullCountsRequest)))
			}},
		},
	},
	{
		name: "electricpb.ApiRouter", desc: &traits.ElectricApi_ServiceDesc,
		router: func(opts ...router.Option) router.Router { return electricpb.NewApiRouter(opts...) },
		wrap:   func(s any) any { return electricpb.WrapApi(s.(traits.ElectricApiServer)) },
		add: func(r any, n string, c any) any {
			return iface(r.(*electricpb.ApiRouter).AddElectricApiClient(n, c.(traits.ElectricApiClient)))
		},
		calls: map[string]call{
			"GetDemand": {req: func() proto.Message { return &traits.GetDemandRequest{} }, unary: func(ctx context.Context, c any, q proto.Message) (proto.Message, error) {
				return msg(c.(traits.ElectricApiClient).GetDemand(ctx, q.(*traits.GetDemandRequest)))
			}},
			"PullDemand": {req: func() proto.Message { return &traits.PullDemandRequest{} }, res: func() proto.Message { return &traits.PullDemandResponse{} }, open: func(ctx context.Context, c any, q proto.Message) (grpc.ClientStream, error) {
				return open(c.(traits.ElectricApiClient).PullDemand(ctx, q.(*traits.PullDemandRequest)))
			}},
			"GetActiveMode": {req: func() proto.Message { return &traits.GetActiveModeRequest{} }, unary: func(ctx context.Context, c any, q proto.Message) (proto.Message, error) {
				return msg(c.(traits.ElectricApiClient).GetActiveMode(ctx, q.(*traits.GetActiveModeRequest)))
			}},
			"UpdateActiveMode": {req: func() proto.Message { return &traits.UpdateActiveModeRequest{} }, unary: func(ctx context.Context, c any, q proto.Message) (proto.Message, error) {
				return msg(c.(traits.ElectricApiClient).UpdateActiveMode(ctx, q.(*traits.UpdateActiveModeRequest)))
			}},
			"ClearActiveMode": {req: func() proto.Message { return &traits.ClearActiveModeRequest{} }, unary: func(ctx context.Context, c any, q proto.Message) (proto.Message, error) {
				return msg(c.(traits.ElectricApiClient).ClearActiveMode(ctx, q.(*traits.ClearActiveModeRequest)))
			}},
			"PullActiveMode": {req: func() proto.Message { return &traits.PullActiveModeRequest{} }, res: func() proto.Message { return &traits.PullActiveModeResponse{} }, open: func(ctx context.Context, c any, q proto.Message) (grpc.ClientStream, error) {
				return open(c.(traits.ElectricApiClient).PullActiveMode(ctx, q.(*traits.PullActiveModeRequest)))
			}},
			"ListModes": {req: func() proto.Message { return &traits.ListModesRequest{} }, unary: func(ctx context.Context, c any, q proto.Message) (proto.Message, error) {
				return msg(c.(traits.ElectricApiClient).ListModes(ctx, q.(*traits.ListModesRequest)))
			}},
			"PullModes": {req: func() proto.Message { return &traits.PullModesRequest{} }, res: func() proto.Message { return &traits.PullModesResponse{} }, open: func(ctx context.Context, c any, q proto.Message) (grpc.ClientStream, error) {
				return open(c.(traits.ElectricApiClient).PullModes(ctx, q.(*traits.PullModesRequest)))
			}},
		},
	},
	{
		name: "electricpb.MemorySettingsApiRouter", desc: &electricpb.MemorySettingsApi_ServiceDesc,
		router: func(opts ...router.Option) router.Router { return electricpb.NewMemorySettingsApiRouter(opts...) },
		wrap:   func(s any) any { return electricpb.WrapMemorySettingsApi(s.(electricpb.MemorySettingsApiServer)) },
		add: func(r any, n string, c any) any {
			return iface(r.(*electricpb.MemorySettingsApiRouter).AddMemorySettingsApiClient(n, c.(electricpb.MemorySettingsApiClient)))
		},
		calls: map[string]call{
			"UpdateDemand": {req: func() proto.Message { return &electricpb.UpdateDemandRequest{} }, unary: func(ctx context.Context, c any, q proto.Message) (proto.Message, error) {
				return msg(c.(electricpb.MemorySettingsApiClient).UpdateDemand(ctx, q.(*electricpb.UpdateDemandRequest)))
			}},
			"CreateMode": {req: func() proto.Message { return &electricpb.CreateModeRequest{} }, unary: func(ctx context.Context, c any, q proto.Message) (proto.Message, error) {
				return msg(c.(electricpb.MemorySettingsApiClient).CreateMode(ctx, q.(*electricpb.CreateModeRequest)))
			}},
			"UpdateMode": {req: func() proto.Message { return &electricpb.UpdateModeRequest{} }, unary: func(ctx context.Context, c any, q proto.Message) (proto.Message, error) {
				return msg(c.(electricpb.MemorySettingsApiClient).UpdateMode(ctx, q.(*electricpb.UpdateModeRequest)))
			}},
			"DeleteMode": {req: func() proto.Message { return &electricpb.DeleteModeRequest{} }, unary: func(ctx context.Context, c any, q proto.Message) (proto.Message, error) {
				return msg(c.(electricpb.MemorySettingsApiClient).DeleteMode(ctx, q.(*electricpb.DeleteModeRequest)))
			}},
		},
	},
	{
		name: "emergencypb.ApiRouter", desc: &traits.EmergencyApi_ServiceDesc,
		router: func(opts ...router.Option) router.Router { return emergencypb.NewApiRouter(opts...) },
		wrap:   func(s any) any { return emergencypb.WrapApi(s.(traits.EmergencyApiServer)) },
		add: func(r any, n string, c any) any {
			return iface(r.(*emergencypb.ApiRouter).AddEmergencyApiClient(n, c.(traits.EmergencyApiClient)))
		},
		calls: map[string]call{
			"GetEmergency": {req: func() proto.Message { return &traits.GetEmergencyRequest{} }, unary: func(ctx context.Context, c any, q proto.Message) (proto.Message, error) {
				return msg(c.(traits.EmergencyApiClient).GetEmergency(ctx, q.(*traits.GetEmergencyRequest)))
			}},
			"UpdateEmergency": {req: func() proto.Message { return &traits.UpdateEmergencyRequest{} }, unary: func(ctx context.Context, c any, q proto.Message) (proto.Message, error) {
				return msg(c.(traits.EmergencyApiClient).UpdateEmergency(ctx, q.(*traits.UpdateEmergencyRequest)))
			}},
			"PullEmergency": {req: func() proto.Message { return &traits.PullEmergencyRequest{} }, res: func() proto.Message { return &traits.PullEmergencyResponse{} }, open: func(ctx context.Context, c any, q proto.Message) (grpc.ClientStream, error) {
				return open(c.(traits.EmergencyApiClient).PullEmergency(ctx, q.(*traits.PullEmergencyRequest)))
			}},
		},
	},
	{
		name: "energystoragepb.ApiRouter", desc: &traits.EnergyStorageApi_ServiceDesc,
		router: func(opts ...router.Option) router.Router { return energystoragepb.NewApiRouter(opts...) },
		wrap:   func(s any) any { return energystoragepb.WrapApi(s.(traits.EnergyStorageApiServer)) },
		add: func(r any, n string, c any) any {
			return iface(r.(*energystoragepb.ApiRouter).AddEnergyStorageApiClient(n, c.(traits.EnergyStorageApiClient)))
		},
		calls: map[string]call{
			"GetEnergyLevel": {req: func() proto.Message { return &traits.GetEnergyLevelRequest{} }, unary: func(ctx context.Context, c any, q proto.Message) (proto.Message, error) {
				return msg(c.(traits.EnergyStorageApiClient).GetEnergyLevel(ctx, q.(*traits.GetEnergyLevelRequest)))
			}},
			"PullEnergyLevel": {req: func() proto.Message { return &traits.PullEnergyLevelRequest{} }, res: func() proto.Message { return &traits.PullEnergyLevelResponse{} }, open: func(ctx context.Context, c any, q proto.Message) (grpc.ClientStream, error) {
				return open(c.(traits.EnergyStorageApiClient).PullEnergyLevel(ctx, q.(*traits.PullEnergyLevelRequest)))
			}},
			"Charge": {req: func() proto.Message { return &traits.ChargeRequest{} }, unary: func(ctx context.Context, c any, q proto.Message) (proto.Message, error) {
				return msg(c.(traits.EnergyStorageApiClient).Charge(ctx, q.(*traits.ChargeRequest)))
			}},
		},
	},
	{
		name: "enterleavesensorpb.ApiRouter", desc: &traits.EnterLeaveSensorApi_ServiceDesc,
		router: func(opts ...router.Option) router.Router { return enterleavesensorpb.NewApiRouter(opts...) },
		wrap:   func(s any) any { return enterleavesensorpb.WrapApi(s.(traits.EnterLeaveSensorApiServer)) },
		add: func(r any, n string, c any) any {
			return iface(r.(*enterleavesensorpb.ApiRouter).AddEnterLeaveSensorApiClient(n, c.(traits.EnterLeaveSensorApiClient)))
		},
		calls: map[string]call{
			"PullEnterLeaveEvents": {req: func() proto.Message { return &traits.PullEnterLeaveEventsRequest{} }, res: func() proto.Message { return &traits.PullEnterLeaveEventsResponse{} }, open: func(ctx context.Context, c any, q proto.Message) (grpc.ClientStream, error) {
				return open(c.(traits.EnterLeaveSensorApiClient).PullEnterLeaveEvents(ctx, q.(*traits.PullEnterLeaveEventsRequest)))
			}},
			"GetEnterLeaveEvent": {req: func() proto.Message { return &traits.GetEnterLeaveEventRequest{} }, unary: func(ctx context.Context, c any, q proto.Message) (proto.Message, error) {
				return msg(c.(traits.EnterLeaveSensorApiClient).GetEnterLeaveEvent(ctx, q.(*traits.GetEnterLeaveEventRequest)))
			}},
			"ResetEnterLeaveTotals": {req: func() proto.Message { return &traits.ResetEnterLeaveTotalsRequest{} }, unary: func(ctx context.Context, c any, q proto.Message) (proto.Message, error) {
				return msg(c.(traits.EnterLeaveSensorApiClient).ResetEnterLeaveTotals(ctx, q.(*traits.ResetEnterLeaveTotalsRequest)))
			}},
		},
	},
	{
		name: "fanspeedpb.ApiRouter", desc: &traits.FanSpeedApi_ServiceDesc,
		router: func(opts ...router.Option) router.Router { return fanspeedpb.NewApiRouter(opts...) },
		wrap:   func(s any) any { return fanspeedpb.WrapApi(s.(traits.FanSpeedApiServer)) },
		add: func(r any, n string, c any) any {
			return iface(r.(*fanspeedpb.ApiRouter).AddFanSpeedApiClient(n, c.(traits.FanSpeedApiClient)))
		},
		calls: map[string]call{
			"GetFanSpeed": {req: func() proto.Message { return &traits.GetFanSpeedRequest{} }, unary: func(ctx context.Context, c any, q proto.Message) (proto.Message, error) {
				return msg(c.(traits.FanSpeedApiClient).GetFanSpeed(ctx, q.(*traits.GetFanSpeedRequest)))
			}},
			"UpdateFanSpeed": {req: func() proto.Message { return &traits.UpdateFanSpeedRequest{} }, unary: func(ctx context.Context, c any, q proto.Message) (proto.Message, error) {
				return msg(c.(traits.FanSpeedApiClient).UpdateFanSpeed(ctx, q.(*traits.UpdateFanSpeedRequest)))
			}},
			"PullFanSpeed": {req: func() proto.Message { return &traits.PullFanSpeedRequest{} }, res: func() proto.Message { return &traits.PullFanSpeedResponse{} }, open: func(ctx context.Context, c any, q proto.Message) (grpc.ClientStream, error) {
				return open(c.(traits.FanSpeedApiClient).PullFanSpeed(ctx, q.(*traits.PullFanSpeedRequest)))
			}},
			"ReverseFanSpeedDirection": {req: func() proto.Message { return &traits.ReverseFanSpeedDirectionRequest{} }, unary: func(ctx context.Context, c any, q proto.Message) (proto.Message, error) {
				return msg(c.(traits.FanSpeedApiClient).ReverseFanSpeedDirection(ctx, q.(*traits.ReverseFanSpeedDirectionRequest)))
			}},
		},
	},
	{
		name: "hailpb.ApiRouter", desc: &traits.HailApi_ServiceDesc,
		router: func(opts ...router.Option) router.Router { return hailpb.NewApiRouter(opts...) },
		wrap:   func(s any) any { return hailpb.WrapApi(s.(traits.HailApiServer)) },
		add: func(r any, n string, c any) any {
			return iface(r.(*hailpb.ApiRouter).AddHailApiClient(n, c.(traits.HailApiClient)))
		},
		calls: map[string]call{
			"CreateHail": {req: func() proto.Message { return &traits.CreateHailRequest{} }, unary: func(ctx context.Context, c any, q proto.Message) (proto.Message, error) {
				return msg(c.(traits.HailApiClient).CreateHail(ctx, q.(*traits.CreateHailRequest)))
			}},
			"GetHail": {req: func() proto.Message { return &traits.GetHailRequest{} }, unary: func(ctx context.Context, c any, q proto.Message) (proto.Message, error) {
				return msg(c.(traits.HailApiClient).GetHail(ctx, q.(*traits.GetHailRequest)))
			}},
			"UpdateHail": {req: func() proto.Message { return &traits.UpdateHailRequest{} }, unary: func(ctx context.Context, c any, q proto.Message) (proto.Message, error) {
				return msg(c.(traits.HailApiClient).UpdateHail(ctx, q.(*traits.UpdateHailRequest)))
			}},
			"DeleteHail": {req: func() proto.Message { return &traits.DeleteHailRequest{} }, unary: func(ctx context.Context, c any, q proto.Message) (proto.Message, error) {
				return msg(c.(traits.HailApiClient).DeleteHail(ctx, q.(*traits.DeleteHailRequest)))
			}},
			"PullHail": {req: func() proto.Message { return &traits.PullHailRequest{} }, res: func() proto.Message { return &traits.PullHailResponse{} }, open: func(ctx context.Context, c any, q proto.Message) (grpc.ClientStream, error) {
				return open(c.(traits.HailApiClient).PullHail(ctx, q.(*traits.PullHailRequest)))
			}},
			"ListHails": {req: func() proto.Message { return &traits.ListHailsRequest{} }, unary: func(ctx context.Context, c any, q proto.Message) (proto.Message, error) {
				return msg(c.(traits.HailApiClient).ListHails(ctx, q.(*traits.ListHailsRequest)))
			}},
			"PullHails": {req: func() proto.Message { return &traits.PullHailsRequest{} }, res: func() proto.Message { return &traits.PullHailsResponse{} }, open: func(ctx context.Context, c any, q proto.Message) (grpc.ClientStream, error) {
				return open(c.(traits.HailApiClient).PullHails(ctx, q.(*traits.PullHailsRequest)))
			}},
		},
	},
	{
		name: "lightpb.ApiRouter", desc: &traits.LightApi_ServiceDesc,
		router: func(opts ...router.Option) router.Router { return lightpb.NewApiRouter(opts...) },
		wrap:   func(s any) any { return lightpb.WrapApi(s.(traits.LightApiServer)) },
		add: func(r any, n string, c any) any {
			return iface(r.(*lightpb.ApiRouter).AddLightApiClient(n, c.(traits.LightApiClient)))
		},
		calls: map[string]call{
			"UpdateBrightness": {req: func() proto.Message { return &traits.UpdateBrightnessRequest{} }, unary: func(ctx context.Context, c any, q proto.Message) (proto.Message, error) {
				return msg(c.(traits.LightApiClient).UpdateBrightness(ctx, q.(*traits.UpdateBrightnessRequest)))
			}},
			"GetBrightness": {req: func() proto.Message { return &traits.GetBrightnessRequest{} }, unary: func(ctx context.Context, c any, q proto.Message) (proto.Message, error) {
				return msg(c.(traits.LightApiClient).GetBrightness(ctx, q.(*traits.GetBrightnessRequest)))
			}},
			"PullBrightness": {req: func() proto.Message { return &traits.PullBrightnessRequest{} }, res: func() proto.Message { return &traits.PullBrightnessResponse{} }, open: func(ctx context.Context, c any, q proto.Message) (grpc.ClientStream, error) {
				return open(c.(traits.LightApiClient).PullBrightness(ctx, q.(*traits.PullBrightnessRequest)))
			}},
		},
	},
	{
		name: "metadatapb.ApiRouter", desc: &traits.MetadataApi_ServiceDesc,
		router: func(opts ...router.Option) router.Router { return metadatapb.NewApiRouter(opts...) },
		wrap:   func(s any) any { return metadatapb.WrapApi(s.(traits.MetadataApiServer)) },
		add: func(r any, n string, c any) any {
			return iface(r.(*metadatapb.ApiRouter).AddMetadataApiClient(n, c.(traits.MetadataApiClient)))
		},
		calls: map[string]call{
			"GetMetadata": {req: func() proto.Message { return &traits.GetMetadataRequest{} }, unary: func(ctx context.Context, c any, q proto.Message) (proto.Message, error) {
				return msg(c.(traits.MetadataApiClient).GetMetadata(ctx, q.(*traits.GetMetadataRequest)))
			}},
			"PullMetadata": {req: func() proto.Message { return &traits.PullMetadataRequest{} }, res: func() proto.Message { return &traits.PullMetadataResponse{} }, open: func(ctx context.Context, c any, q proto.Message) (grpc.ClientStream, error) {
				return open(c.(traits.MetadataApiClient).PullMetadata(ctx, q.(*traits.PullMetadataRequest)))
			}},
		},
	},
	{
		name: "meterpb.ApiRouter", desc: &traits.MeterApi_ServiceDesc,
		router: func(opts ...router.Option) router.Router { return meterpb.NewApiRouter(opts...) },
		wrap:   func(s any) any { return meterpb.WrapApi(s.(traits.MeterApiServer)) },
		add: func(r any, n string, c any) any {
			return iface(r.(*meterpb.ApiRouter).AddMeterApiClient(n, c.(traits.MeterApiClient)))
		},
		calls: map[string]call{
			"GetMeterReading": {req: func() proto.Message { return &traits.GetMeterReadingRequest{} }, unary: func(ctx context.Context, c any, q proto.Message) (proto.Message, error) {
				return msg(c.(traits.MeterApiClient).GetMeterReading(ctx, q.(*traits.GetMeterReadingRequest)))
			}},
			"PullMeterReadings": {req: func() proto.Message { return &traits.PullMeterReadingsRequest{} }, res: func() proto.Message { return &traits.PullMeterReadingsResponse{} }, open: func(ctx context.Context, c any, q proto.Message) (grpc.ClientStream, error) {
				return open(c.(traits.MeterApiClient).PullMeterReadings(ctx, q.(*traits.PullMeterReadingsRequest)))
			}},
		},
	},
	{
		name: "modepb.ApiRouter", desc: &traits.ModeApi_ServiceDesc,
		router: func(opts ...router.Option) router.Router { return modepb.NewApiRouter(opts...) },
		wrap:   func(s any) any { return modepb.WrapApi(s.(traits.ModeApiServer)) },
		add: func(r any, n string, c any) any {
			return iface(r.(*modepb.ApiRouter).AddModeApiClient(n, c.(traits.ModeApiClient)))
		},
		calls: map[string]call{
			"GetModeValues": {req: func() proto.Message { return &traits.GetModeValuesRequest{} }, unary: func(ctx context.Context, c any, q proto.Message) (proto.Message, error) {
				return msg(c.(traits.ModeApiClient).GetModeValues(ctx, q.(*traits.GetModeValuesRequest)))
			}},
			"UpdateModeValues": {req: func() proto.Message { return &traits.UpdateModeValuesRequest{} }, unary: func(ctx context.Context, c any, q proto.Message) (proto.Message, error) {
				return msg(c.(traits.ModeApiClient).UpdateModeValues(ctx, q.(*traits.UpdateModeValuesRequest)))
			}},
			"PullModeValues": {req: func() proto.Message { return &traits.PullModeValuesRequest{} }, res: func() proto.Message { return &traits.PullModeValuesResponse{} }, open: func(ctx context.Context, c any, q proto.Message) (grpc.ClientStream, error) {
				return open(c.(traits.ModeApiClient).PullModeValues(ctx, q.(*traits.PullModeValuesRequest)))
			}},
		},
	},
	{
		name: "occupancysensorpb.ApiRouter", desc: &traits.OccupancySensorApi_ServiceDesc,
		router: func(opts ...router.Option) router.Router { return occupancysensorpb.NewApiRouter(opts...) },
		wrap:   func(s any) any { return occupancysensorpb.WrapApi(s.(traits.OccupancySensorApiServer)) },
		add: func(r any, n string, c any) any {
			return iface(r.(*occupancysensorpb.ApiRouter).AddOccupancySensorApiClient(n, c.(traits.OccupancySensorApiClient)))
		},
		calls: map[string]call{
			"GetOccupancy": {req: func() proto.Message { return &traits.GetOccupancyRequest{} }, unary: func(ctx context.Context, c any, q proto.Message) (proto.Message, error) {
				return msg(c.(traits.OccupancySensorApiClient).GetOccupancy(ctx, q.(*traits.GetOccupancyRequest)))
			}},
			"PullOccupancy": {req: func() proto.Message { return &traits.PullOccupancyRequest{} }, res: func() proto.Message { return &traits.PullOccupancyResponse{} }, open: func(ctx context.Context, c any, q proto.Message) (grpc.ClientStream, error) {
				return open(c.(traits.OccupancySensorApiClient).PullOccupancy(ctx, q.(*traits.PullOccupancyRequest)))
			}},
		},
	},
	{
		name: "onoffpb.ApiRouter", desc: &traits.OnOffApi_ServiceDesc,
		router: func(opts ...router.Option) router.Router { return onoffpb.NewApiRouter(opts...) },
		wrap:   func(s any) any { return onoffpb.WrapApi(s.(traits.OnOffApiServer)) },
		add: func(r any, n string, c any) any {
			return iface(r.(*onoffpb.ApiRouter).AddOnOffApiClient(n, c.(traits.OnOffApiClient)))
		},
		calls: map[string]call{
			"GetOnOff": {req: func() proto.Message { return &traits.GetOnOffRequest{} }, unary: func(ctx context.Context, c any, q proto.Message) (proto.Message, error) {
				return msg(c.(traits.OnOffApiClient).GetOnOff(ctx, q.(*traits.GetOnOffRequest)))
			}},
			"UpdateOnOff": {req: func() proto.Message { return &traits.UpdateOnOffRequest{} }, unary: func(ctx context.Context, c any, q proto.Message) (proto.Message, error) {
				return msg(c.(traits.OnOffApiClient).UpdateOnOff(ctx, q.(*traits.UpdateOnOffRequest)))
			}},
			"PullOnOff": {req: func() proto.Message { return &traits.PullOnOffRequest{} }, res: func() proto.Message { return &traits.PullOnOffResponse{} }, open: func(ctx context.Context, c any, q proto.Message) (grpc.ClientStream, error) {
				return open(c.(traits.OnOffApiClient).PullOnOff(ctx, q.(*traits.PullOnOffRequest)))
			}},
		},
	},
	{
		name: "openclosepb.ApiRouter", desc: &traits.OpenCloseApi_ServiceDesc,
		router: func(opts ...router.Option) router.Router { return openclosepb.NewApiRouter(opts...) },
		wrap:   func(s any) any { return openclosepb.WrapApi(s.(traits.OpenCloseApiServer)) },
		add: func(r any, n string, c any) any {
			return iface(r.(*openclosepb.ApiRouter).AddOpenCloseApiClient(n, c.(traits.OpenCloseApiClient)))
		},
		calls: map[string]call{
			"GetPositions": {req: func() proto.Message { return &traits.GetOpenClosePositionsRequest{} }, unary: func(ctx context.Context, c any, q proto.Message) (proto.Message, error) {
				return msg(c.(traits.OpenCloseApiClient).GetPositions(ctx, q.(*traits.GetOpenClosePositionsRequest)))
			}},
			"UpdatePositions": {req: func() proto.Message { return &traits.UpdateOpenClosePositionsRequest{} }, unary: func(ctx context.Context, c any, q proto.Message) (proto.Message, error) {
				return msg(c.(traits.OpenCloseApiClient).UpdatePositions(ctx, q.(*traits.UpdateOpenClosePositionsRequest)))
			}},
			"Stop": {req: func() proto.Message { return &traits.StopOpenCloseRequest{} }, unary: func(ctx context.Context, c any, q proto.Message) (proto.Message, error) {
				return msg(c.(traits.OpenCloseApiClient).Stop(ctx, q.(*traits.StopOpenCloseRequest)))
			}},
			"PullPositions": {req: func() proto.Message { return &traits.PullOpenClosePositionsRequest{} }, res: func() proto.Message { return &traits.PullOpenClosePositionsResponse{} }, open: func(ctx context.Context, c any, q proto.Message) (grpc.ClientStream, error) {
				return open(c.(traits.OpenCloseApiClient).PullPositions(ctx, q.(*traits.PullOpenClosePositionsRequest)))
			}},
		},
	},
	{
		name: "parentpb.ApiRouter", desc: &traits.ParentApi_ServiceDesc,
		router: func(opts ...router.Option) router.Router { return parentpb.NewApiRouter(opts...) },
		wrap:   func(s any) any { return parentpb.WrapApi(s.(traits.ParentApiServer)) },
		add: func(r any, n string, c any) any {
			return iface(r.(*parentpb.ApiRouter).AddParentApiClient(n, c.(traits.ParentApiClient)))
		},
		calls: map[string]call{
			"ListChildren": {req: func() proto.Message { return &traits.ListChildrenRequest{} }, unary: func(ctx context.Context, c any, q proto.Message) (proto.Message, error) {
				return msg(c.(traits.ParentApiClient).ListChildren(ctx, q.(*traits.ListChildrenRequest)))
			}},
			"PullChildren": {req: func() proto.Message { return &traits.PullChildrenRequest{} }, res: func() proto.Message { return &traits.PullChildrenResponse{} }, open: func(ctx context.Context, c any, q proto.Message) (grpc.ClientStream, error) {
				return open(c.(traits.ParentApiClient).PullChildren(ctx, q.(*traits.PullChildrenRequest)))
			}},
		},
	},
	{
		name: "presspb.ApiRouter", desc: &traits.PressApi_ServiceDesc,
		router: func(opts ...router.Option) router.Router { return presspb.NewApiRouter(opts...) },
		wrap:   func(s any) any { return presspb.WrapApi(s.(traits.PressApiServer)) },
		add: func(r any, n string, c any) any {
			return iface(r.(*presspb.ApiRouter).AddPressApiClient(n, c.(traits.PressApiClient)))
		},
		calls: map[string]call{
			"GetPressedState": {req: func() proto.Message { return &traits.GetPressedStateRequest{} }, unary: func(ctx context.Context, c any, q proto.Message) (proto.Message, error) {
				return msg(c.(traits.PressApiClient).GetPressedState(ctx, q.(*traits.GetPressedStateRequest)))
			}},
			"PullPressedState": {req: func() proto.Message { return &traits.PullPressedStateRequest{} }, res: func() proto.Message { return &traits.PullPressedStateResponse{} }, open: func(ctx context.Context, c any, q proto.Message) (grpc.ClientStream, error) {
				return open(c.(traits.PressApiClient).PullPressedState(ctx, q.(*traits.PullPressedStateRequest)))
			}},
			"UpdatePressedState": {req: func() proto.Message { return &traits.UpdatePressedStateRequest{} }, unary: func(ctx context.Context, c any, q proto.Message) (proto.Message, error) {
				return msg(c.(traits.PressApiClient).UpdatePressedState(ctx, q.(*traits.UpdatePressedStateRequest)))
			}},
		},
	},
	{
		name: "publicationpb.ApiRouter", desc: &traits.PublicationApi_ServiceDesc,
		router: func(opts ...router.Option) router.Router { return publicationpb.NewApiRouter(opts...) },
		wrap:   func(s any) any { return publicationpb.WrapApi(s.(traits.PublicationApiServer)) },
		add: func(r any, n string, c any) any {
			return iface(r.(*publicationpb.ApiRouter).AddPublicationApiClient(n, c.(traits.PublicationApiClient)))
		},
		calls: map[string]call{
			"CreatePublication": {req: func() proto.Message { return &traits.CreatePublicationRequest{} }, unary: func(ctx context.Context, c any, q proto.Message) (proto.Message, error) {
				return msg(c.(traits.PublicationApiClient).CreatePublication(ctx, q.(*traits.CreatePublicationRequest)))
			}},
			"GetPublication": {req: func() proto.Message { return &traits.GetPublicationRequest{} }, unary: func(ctx context.Context, c any, q proto.Message) (proto.Message, error) {
				return msg(c.(traits.PublicationApiClient).GetPublication(ctx, q.(*traits.GetPublicationRequest)))
			}},
			"UpdatePublication": {req: func() proto.Message { return &traits.UpdatePublicationRequest{} }, unary: func(ctx context.Context, c any, q proto.Message) (proto.Message, error) {
				return msg(c.(traits.PublicationApiClient).UpdatePublication(ctx, q.(*traits.UpdatePublicationRequest)))
			}},
			"DeletePublication": {req: func() proto.Message { return &traits.DeletePublicationRequest{} }, unary: func(ctx context.Context, c any, q proto.Message) (proto.Message, error) {
				return msg(c.(traits.PublicationApiClient).DeletePublication(ctx, q.(*traits.DeletePublicationRequest)))
			}},
			"PullPublication": {req: func() proto.Message { return &traits.PullPublicationRequest{} }, res: func() proto.Message { return &traits.PullPublicationResponse{} }, open: func(ctx context.Context, c any, q proto.Message) (grpc.ClientStream, error) {
				return open(c.(traits.PublicationApiClient).PullPublication(ctx, q.(*traits.PullPublicationRequest)))
			}},
			"ListPublications": {req: func() proto.Message { return &traits.ListPublicationsRequest{} }, unary: func(ctx context.Context, c any, q proto.Message) (proto.Message, error) {
				return msg(c.(traits.PublicationApiClient).ListPublications(ctx, q.(*traits.ListPublicationsRequest)))
			}},
			"PullPublications": {req: func() proto.Message { return &traits.PullPublicationsRequest{} }, res: func() proto.Message { return &traits.PullPublicationsResponse{} }, open: func(ctx context.Context, c any, q proto.Message) (grpc.ClientStream, error) {
				return open(c.(traits.PublicationApiClient).PullPublications(ctx, q.(*traits.PullPublicationsRequest)))
			}},
			"AcknowledgePublication": {req: func() proto.Message { return &traits.AcknowledgePublicationRequest{} }, unary: func(ctx context.Context, c any, q proto.Message) (proto.Message, error) {
				return msg(c.(traits.PublicationApiClient).AcknowledgePublication(ctx, q.(*traits.AcknowledgePublicationRequest)))
			}},
		},
	},
	{
		name: "speakerpb.ApiRouter", desc: &traits.SpeakerApi_ServiceDesc,
		router: func(opts ...router.Option) router.Router { return speakerpb.NewApiRouter(opts...) },
		wrap:   func(s any) any { return speakerpb.WrapApi(s.(traits.SpeakerApiServer)) },
		add: func(r any, n string, c any) any {
			return iface(r.(*speakerpb.ApiRouter).AddSpeakerApiClient(n, c.(traits.SpeakerApiClient)))
		},
		calls: map[string]call{
			"GetVolume": {req: func() proto.Message { return &traits.GetSpeakerVolumeRequest{} }, unary: func(ctx context.Context, c any, q proto.Message) (proto.Message, error) {
				return msg(c.(traits.SpeakerApiClient).GetVolume(ctx, q.(*traits.GetSpeakerVolumeRequest)))
			}},
			"UpdateVolume": {req: func() proto.Message { return &traits.UpdateSpeakerVolumeRequest{} }, unary: func(ctx context.Context, c any, q proto.Message) (proto.Message, error) {
				return msg(c.(traits.SpeakerApiClient).UpdateVolume(ctx, q.(*traits.UpdateSpeakerVolumeRequest)))
			}},
			"PullVolume": {req: func() proto.Message { return &traits.PullSpeakerVolumeRequest{} }, res: func() proto.Message { return &traits.PullSpeakerVolumeResponse{} }, open: func(ctx context.Context, c any, q proto.Message) (grpc.ClientStream, error) {
				return open(c.(traits.SpeakerApiClient).PullVolume(ctx, q.(*traits.PullSpeakerVolumeRequest)))
			}},
		},
	},
	{
		name: "vendingpb.ApiRouter", desc: &traits.VendingApi_ServiceDesc,
		router: func(opts ...router.Option) router.Router { return vendingpb.NewApiRouter(opts...) },
		wrap:   func(s any) any { return vendingpb.WrapApi(s.(traits.VendingApiServer)) },
		add: func(r any, n string, c any) any {
			return iface(r.(*vendingpb.ApiRouter).AddVendingApiClient(n, c.(traits.VendingApiClient)))
		},
		calls: map[string]call{
			"ListConsumables": {req: func() proto.Message { return &traits.ListConsumablesRequest{} }, unary: func(ctx context.Context, c any, q proto.Message) (proto.Message, error) {
				return msg(c.(traits.VendingApiClient).ListConsumables(ctx, q.(*traits.ListConsumablesRequest)))
			}},
			"PullConsumables": {req: func() proto.Message { return &traits.PullConsumablesRequest{} }, res: func() proto.Message { return &traits.PullConsumablesResponse{} }, open: func(ctx context.Context, c any, q proto.Message) (grpc.ClientStream, error) {
				return open(c.(traits.VendingApiClient).PullConsumables(ctx, q.(*traits.PullConsumablesRequest)))
			}},
			"GetStock": {req: func() proto.Message { return &traits.GetStockRequest{} }, unary: func(ctx context.Context, c any, q proto.Message) (proto.Message, error) {
				return msg(c.(traits.VendingApiClient).GetStock(ctx, q.(*traits.GetStockRequest)))
			}},
			"UpdateStock": {req: func() proto.Message { return &traits.UpdateStockRequest{} }, unary: func(ctx context.Context, c any, q proto.Message) (proto.Message, error) {
				return msg(c.(traits.VendingApiClient).UpdateStock(ctx, q.(*traits.UpdateStockRequest)))
			}},
			"PullStock": {req: func() proto.Message { return &traits.PullStockRequest{} }, res: func() proto.Message { return &traits.PullStockResponse{} }, open: func(ctx context.Context, c any, q proto.Message) (grpc.ClientStream, error) {
				return open(c.(traits.VendingApiClient).PullStock(ctx, q.(*traits.PullStockRequest)))
			}},
			"ListInventory": {req: func() proto.Message { return &traits.ListInventoryRequest{} }, unary: func(ctx context.Context, c any, q proto.Message) (proto.Message, error) {
				return msg(c.(traits.VendingApiClient).ListInventory(ctx, q.(*traits.ListInventoryRequest)))
			}},
			"PullInventory": {req: func() proto.Message { return &traits.PullInventoryRequest{} }, res: func() proto.Message { return &traits.PullInventoryResponse{} }, open: func(ctx context.Context, c any, q proto.Message) (grpc.ClientStream, error) {
				return open(c.(traits.VendingApiClient).PullInventory(ctx, q.(*traits.PullInventoryRequest)))
			}},
			"Dispense": {req: func() proto.Message { return &traits.DispenseRequest{} }, unary: func(ctx context.Context, c any, q proto.Message) (proto.Message, error) {
				return msg(c.(traits.VendingApiClient).Dispense(ctx, q.(*traits.DispenseRequest)))
			}},
			"StopDispense": {req: func() proto.Message { return &traits.StopDispenseRequest{} }, unary: func(ctx context.Context, c any, q proto.Message) (proto.Message, error) {
				return msg(c.(traits.VendingApiClient).StopDispense(ctx, q.(*traits.StopDispenseRequest)))
			}},
		},
	},
	{
		name: "wastepb.ApiRouter", desc: &traits.WasteApi_ServiceDesc,
		router: func(opts ...router.Option) router.Router { return wastepb.NewApiRouter(opts...) },
		wrap:   func(s any) any { return wastepb.WrapApi(s.(traits.WasteApiServer)) },
		add: func(r any, n string, c any) any {
			return iface(r.(*wastepb.ApiRouter).AddWasteApiClient(n, c.(traits.WasteApiClient)))
		},
		calls: map[string]call{
			"ListWasteRecords": {req: func() proto.Message { return &traits.ListWasteRecordsRequest{} }, unary: func(ctx context.Context, c any, q proto.Message) (proto.Message, error) {
				return msg(c.(traits.WasteApiClient).ListWasteRecords(ctx, q.(*traits.ListWasteRecordsRequest)))
			}},
			"PullWasteRecords": {req: func() proto.Message { return &traits.PullWasteRecordsRequest{} }, res: func() proto.Message { return &traits.PullWasteRecordsResponse{} }, open: func(ctx context.Context, c any, q proto.Message) (grpc.ClientStream, error) {
				return open(c.(traits.WasteApiClient).PullWasteRecords(ctx, q.(*traits.PullWasteRecordsRequest)))
			}},
		},
	},
}
