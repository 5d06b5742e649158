// The inline type algebra as a C user sees it (out-of-range values are ordinary ints here).
#include "geoarrow/geoarrow.h"
int c_make(int g, int d, int c) { return (int)GeoArrowMakeType((enum GeoArrowGeometryType)g, (enum GeoArrowDimensions)d, (enum GeoArrowCoordType)c); }
int c_geom(int t) { return (int)GeoArrowGeometryTypeFromType((enum GeoArrowType)t); }
int c_dim(int t) { return (int)GeoArrowDimensionsFromType((enum GeoArrowType)t); }
int c_coord(int t) { return (int)GeoArrowCoordTypeFromType((enum GeoArrowType)t); }
const char* c_ext(int t) { return GeoArrowExtensionNameFromType((enum GeoArrowType)t); }
const char* c_name(char what, int v) {
  switch (what) {
    case 'g': return GeoArrowGeometryTypeString((enum GeoArrowGeometryType)v);
    case 'd': return GeoArrowDimensionsString((enum GeoArrowDimensions)v);
    case 'c': return GeoArrowCoordTypeString((enum GeoArrowCoordType)v);
    case 'e': return GeoArrowEdgeTypeString((enum GeoArrowEdgeType)v);
    default: return GeoArrowCrsTypeString((enum GeoArrowCrsType)v);
  }
}
int c_schema(struct ArrowSchema* s, int t, int ext) { return ext ? GeoArrowSchemaInitExtension(s, (enum GeoArrowType)t) : GeoArrowSchemaInit(s, (enum GeoArrowType)t); }
int c_view(struct GeoArrowSchemaView* v, int t) { return GeoArrowSchemaViewInitFromType(v, (enum GeoArrowType)t); }
int c_arrayview(struct GeoArrowArrayView* v, int t) { return GeoArrowArrayViewInitFromType(v, (enum GeoArrowType)t); }
int c_builder(struct GeoArrowBuilder* b, int t) { return GeoArrowBuilderInitFromType(b, (enum GeoArrowType)t); }
