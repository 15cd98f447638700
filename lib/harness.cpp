// Drives the C++ library: one command per line on standard input, the observed values on standard output.
// Each answer ends with a line holding a full stop. A refused request answers "refused".
#include "eustace/definitions.h"
#include "eustace/timeutils/timebase.h"
#include "eustace/analysis/inputmanager.h"
#include "eustace/analysis/fileio/rawbinary.h"
#include "eustace/analysis/fileio/locationpointers.h"
#include "eustace/analysis/fileio/mesh.h"
#include "eustace/analysis/break_points/break_points.h"
#include "eustace/analysis/break_points/insitu_land_break_points.h"
#include <cinttypes>
#include <fcntl.h>
#include <cstdio>
#include <iostream>
#include <memory>
#include <new>
#include <sstream>
#include <string>

using namespace EUSTACE;

static void put(double v) { printf(" %.17g", v); }
static void put_uuid(const LocationLookupUUID& id)
{
  for (size_t i = 0; i < LocationLookupUUID::sizebytes; i++) printf("%02x", id.Bytes()[i]);
  printf("\n");
}
static void put_tm(const std::tm& t)
{ printf("%d %d %d %d %d %d\n", t.tm_year + 1900, t.tm_mon + 1, t.tm_mday, t.tm_hour, t.tm_min, t.tm_sec); }

template<class Iterator> static void put_observations(Iterator& it, size_t ranges)
{
  for (; it.HasElement(); it.Next())
  {
    printf("%" PRIu64, it.Identifier());
    put(it.Measurement());
    put(it.UncertaintyUncorrelated());
    for (size_t r = 0; r < ranges; r++) put(it.UncertaintyLocallyCorrelated(r));
    printf("\n");
  }
}

static void put_retrieval(const AnalysisInputRetrieval& retrieval, bool by_location, uint64_t id)
{
  size_t ranges = retrieval.NumLocalCorrelationRanges();
  printf("ranges");
  for (size_t r = 0; r < ranges; r++) put(retrieval.LocalCorrelationRange(r));
  printf("\ncount %zu\n", retrieval.NumObservations());
  if (by_location)
  {
    const LocationEntry& entry = retrieval.ComputeLocationLookup(id);
    printf("location"); put(entry.latitude); put(entry.longitude); printf("\n");
  }
  for (AnalysisInputIterator it(retrieval); it.HasElement(); it.Next())
  {
    printf("%" PRIu64, it.Identifier());
    put(it.Measurement());
    put(it.UncertaintyUncorrelated());
    for (size_t r = 0; r < ranges; r++) put(it.UncertaintyLocallyCorrelated(r));
    if (!by_location)
    {
      printf(" @");
      put(it.Location().latitude);
      put(it.Location().longitude);
    }
    printf("\n");
  }
}

template<class T> static void put_all(const char* name, const std::vector<T>& values)
{
  printf("%s", name);
  for (size_t i = 0; i < values.size(); i++) put(double(values[i]));
  printf("\n");
}

static void put_breaks(ObservationBreakingPoints& b)
{
  put_all("time", b.break_time);
  put_all("station", b.break_station);
  put_all("likelihood", b.break_likelihood);
  printf("number %d %d\n", b.number_of_observations(), b.number_of_stations());
  std::vector<int32_t> stations = b.stations_collection();
  put_all("stations", stations);
  put_all("counts", b.stations_count());
  for (size_t i = 0; i < stations.size(); i++) put_all("filtered", b.filtered_breakpoints(stations[i]));
}

struct Held
{
  std::unique_ptr<AnalysisInputRetrieval> day;
  std::unique_ptr<AnalysisInputRetrievalCollection> series;
  std::vector<uint64_t> ids;
};

int main()
{
  std::unique_ptr<AnalysisInputManager> manager;
  std::vector<Held> kept;   // retrievals still in use while others are made
  std::string line;
  while (std::getline(std::cin, line))
  {
    std::istringstream in(line);
    std::string word, path;
    in >> word;
    try
    {
      if (word == "calendar")
      {
        int64_t y, m, d;
        in >> y >> m >> d;
        CalendarDay day(y, m, d);
        std::string text;
        day.Text(text);
        put_tm(day);
        printf("%s\n%" PRId64 "\n", text.c_str(), TimeBaseDays(EPOCH).Number(day));
      }
      else if (word == "text")
      {
        std::string text, again;
        in >> text;
        CalendarDay day(text);
        day.Text(again);
        put_tm(day);
        printf("%s\n", again.c_str());
      }
      else if (word == "number")
      {
        std::string a, b;
        in >> a >> b;
        printf("%" PRId64 "\n", TimeBaseDays(CalendarDay(a)).Number(CalendarDay(b)));
      }
      else if (word == "time")
      {
        std::string a;
        int64_t n;
        in >> a >> n;
        TimeBaseDays base((CalendarDay(a)));
        put_tm(base.Time(n));
        printf("%" PRId64 "\n", base.Number(base.Time(n)));
      }
      else if (word == "observations")
      {
        uint64_t ranges;
        in >> path >> ranges;
        std::ifstream stream(path.c_str(), std::ios::binary);
        ObservationEntries entries;
        ObservationRawBinaryReader(ranges).Read(entries, stream);
        put_uuid(entries.LocationLookupID());
        printf("%zu %zu %zu\n", entries.NumEntries(), entries.NumLocalCorrelationRanges(), entries.TotalSizeBytes());
        ObservationIterator it(entries);
        put_observations(it, ranges);
      }
      else if (word == "locations")
      {
        in >> path;
        std::ifstream stream(path.c_str(), std::ios::binary);
        LocationLookup lookup;
        LocationLookupRawBinaryReader().Read(lookup, stream);
        put_uuid(lookup.ID());
        for (size_t i = 0; i < lookup.Lookup().size(); i++)
        {
          printf("%zu", i); put(lookup.Lookup()[i].latitude); put(lookup.Lookup()[i].longitude); printf("\n");
        }
      }
      else if (word == "ranges")
      {
        in >> path;
        std::ifstream stream(path.c_str(), std::ios::binary);
        std::vector<double> ranges;
        LocalCorrelationRangeRawBinaryReader().Read(ranges, stream);
        put_all("ranges", ranges);
      }
      else if (word == "pointers")
      {
        in >> path;
        std::vector<uint64_t> ids;
        uint64_t id;
        while (in >> id) ids.push_back(id);
        std::ifstream stream(path.c_str(), std::ios::binary);
        std::vector<std::vector<LocationPointerRecord> > records;
        LocationPointersRawBinaryReader().Read(records, stream, ids);
        for (size_t i = 0; i < records.size(); i++)
        {
          printf("%" PRIu64, ids[i]);
          for (size_t j = 0; j < records[i].size(); j++) printf(" %" PRId64 ":%" PRIu64, records[i][j].daynumber, records[i][j].fileoffset);
          printf("\n");
        }
      }
      else if (word == "manager")
      {
        in >> path;
        kept.clear();
        manager.reset(new AnalysisInputManager(path.c_str()));
        printf("%s\n", manager->BasePath().c_str());
      }
      else if (word == "specify")
      {
        int s, o; int64_t a, b;
        in >> s >> o >> a >> b;
        manager->Specify(AnalysisInput(AnalysisInput::sourcetype(s), AnalysisInput::observabletype(o), a, b));
        const AnalysisInput& last = manager->Inputs().back();
        printf("%d %d %" PRId64 " %" PRId64 "\n", int(last.Source()), int(last.Observable()), last.StartDay(), last.EndDay());
      }
      else if (word == "day")
      {
        int s, o; int64_t d;
        in >> s >> o >> d;
        AnalysisInputRetrieval retrieval;
        manager->RetrieveDay(retrieval, AnalysisInput::sourcetype(s), AnalysisInput::observabletype(o), d);
        put_retrieval(retrieval, false, 0);
      }
      else if (word == "days")
      {
        // one retrieval object used for several days in turn
        int s, o; int64_t d;
        in >> s >> o;
        AnalysisInputRetrieval retrieval;
        while (in >> d)
        {
          manager->RetrieveDay(retrieval, AnalysisInput::sourcetype(s), AnalysisInput::observabletype(o), d);
          put_retrieval(retrieval, false, 0);
        }
      }
      else if (word == "series")
      {
        int s, o;
        in >> s >> o;
        std::vector<uint64_t> ids;
        uint64_t id;
        while (in >> id) ids.push_back(id);
        AnalysisInputRetrievalCollection collection;
        manager->RetrieveLocations(collection, AnalysisInput::sourcetype(s), AnalysisInput::observabletype(o), ids);
        printf("series %zu\n", collection.Retrievals().size());
        for (size_t i = 0; i < collection.Retrievals().size(); i++) put_retrieval(*collection.Retrievals()[i], true, ids[i]);
      }
      else if (word == "hold")
      {
        int s, o; int64_t d;
        in >> s >> o >> d;
        Held h;
        h.day.reset(new AnalysisInputRetrieval);
        manager->RetrieveDay(*h.day, AnalysisInput::sourcetype(s), AnalysisInput::observabletype(o), d);
        kept.push_back(std::move(h));
      }
      else if (word == "holdseries")
      {
        int s, o;
        in >> s >> o;
        Held h;
        uint64_t id;
        while (in >> id) h.ids.push_back(id);
        h.series.reset(new AnalysisInputRetrievalCollection);
        manager->RetrieveLocations(*h.series, AnalysisInput::sourcetype(s), AnalysisInput::observabletype(o), h.ids);
        kept.push_back(std::move(h));
      }
      else if (word == "held")
      {
        size_t which;
        in >> which;
        const Held& h = kept.at(which);
        if (h.day) put_retrieval(*h.day, false, 0);
        else
        {
          printf("series %zu\n", h.series->Retrievals().size());
          for (size_t i = 0; i < h.series->Retrievals().size(); i++) put_retrieval(*h.series->Retrievals()[i], true, h.ids[i]);
        }
      }
      else if (word == "totals")
      {
        int s, o; int64_t d;
        in >> s >> o >> d;
        AnalysisInput::sourcetype source = AnalysisInput::sourcetype(s);
        AnalysisInput::observabletype observable = AnalysisInput::observabletype(o);
        printf("locations %zu\n", manager->TotalLocations(source));
        if (source == AnalysisInput::source_insitu_ocean)
          printf("mobile %zu\n", manager->TotalDailyMobileLocations(source, observable, d));
        printf("daily %zu\n", manager->TotalDailyObservations(source, observable, d));
        printf("total %zu\n", manager->TotalObservations(source, observable));
      }
      else if (word == "mesh")
      {
        in >> path;
        MeshReader mesh;
        mesh.Read(path.c_str());
        put_all("points", mesh.Points());
        put_all("triangles", mesh.Triangles());
      }
      else if (word == "breaks")
      {
        in >> path;
        int policy(-1); double threshold, decay;
        in >> policy >> threshold >> decay;
        BreakPointsReader reader(path.c_str());
        std::unique_ptr<ObservationBreakingPoints> b(reader.observation());
        if (policy >= 0) b->apply_policy(policy, threshold, decay);
        printf("--\n");
        put_breaks(*b);
        reader.close();
      }
      else if (word == "stations")
      {
        in >> path;
        BreakPointsReader reader(path.c_str());
        std::vector<std::vector<float> > lookup = reader.ObservationLocationLookup();
        put_all("latitude", lookup[0]);
        put_all("longitude", lookup[1]);
        reader.close();
      }
      else if (word == "files")
      {
        int open(0);
        for (int fd = 3; fd < 1024; ++fd)
          open += fcntl(fd, F_GETFD) != -1;
        printf("%d\n", open);
      }
      else
      {
        printf("unknown\n");
      }
    }
    catch (FormatException&) { printf("refused format\n"); }
    catch (MeshReaderException&) { printf("refused mesh\n"); }
    catch (BreakPointsReaderException&) { printf("refused breaks\n"); }
    catch (std::bad_alloc&) { printf("refused allocation\n"); }
    catch (std::exception& e) { printf("refused %s\n", e.what()); }
    printf(".\n");
    fflush(stdout);
  }
  kept.clear();
  return 0;
}
