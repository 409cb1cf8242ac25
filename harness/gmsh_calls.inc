// Written by tools/make_gmsh_calls.py
namespace gmsh
{
void
initialize(int a0, char ** a1, const bool a2, const bool a3)
{
  rec::begin("initialize");
  rec::put(a0);
  rec::put(a1);
  rec::put(a2);
  rec::put(a3);
  rec::mayThrow();
}
}
namespace gmsh
{
int
isInitialized()
{
  rec::begin("isInitialized");
  rec::mayThrow();
  return rec::result<int>();
}
}
namespace gmsh
{
void
finalize()
{
  rec::begin("finalize");
  rec::mayThrow();
}
}
namespace gmsh
{
void
open(const std::string & a0)
{
  rec::begin("open");
  rec::put(a0);
  rec::mayThrow();
}
}
namespace gmsh
{
void
merge(const std::string & a0)
{
  rec::begin("merge");
  rec::put(a0);
  rec::mayThrow();
}
}
namespace gmsh
{
void
write(const std::string & a0)
{
  rec::begin("write");
  rec::put(a0);
  rec::mayThrow();
}
}
namespace gmsh
{
void
clear()
{
  rec::begin("clear");
  rec::mayThrow();
}
}
namespace gmsh::option
{
void
setNumber(const std::string & a0, const double a1)
{
  rec::begin("option::setNumber");
  rec::put(a0);
  rec::put(a1);
  rec::mayThrow();
}
}
namespace gmsh::option
{
void
getNumber(const std::string & a0, double & a1)
{
  rec::begin("option::getNumber");
  rec::put(a0);
  rec::mayThrow();
  rec::make(a1, 1);
}
}
namespace gmsh::option
{
void
setString(const std::string & a0, const std::string & a1)
{
  rec::begin("option::setString");
  rec::put(a0);
  rec::put(a1);
  rec::mayThrow();
}
}
namespace gmsh::option
{
void
getString(const std::string & a0, std::string & a1)
{
  rec::begin("option::getString");
  rec::put(a0);
  rec::mayThrow();
  rec::make(a1, 1);
}
}
namespace gmsh::option
{
void
setColor(const std::string & a0, const int a1, const int a2, const int a3, const int a4)
{
  rec::begin("option::setColor");
  rec::put(a0);
  rec::put(a1);
  rec::put(a2);
  rec::put(a3);
  rec::put(a4);
  rec::mayThrow();
}
}
namespace gmsh::option
{
void
getColor(const std::string & a0, int & a1, int & a2, int & a3, int & a4)
{
  rec::begin("option::getColor");
  rec::put(a0);
  rec::mayThrow();
  rec::make(a1, 1);
  rec::make(a2, 2);
  rec::make(a3, 3);
  rec::make(a4, 4);
}
}
namespace gmsh::model
{
void
add(const std::string & a0)
{
  rec::begin("model::add");
  rec::put(a0);
  rec::mayThrow();
}
}
namespace gmsh::model
{
void
remove()
{
  rec::begin("model::remove");
  rec::mayThrow();
}
}
namespace gmsh::model
{
void
list(std::vector<std::string> & a0)
{
  rec::begin("model::list");
  rec::mayThrow();
  rec::make(a0, 0);
}
}
namespace gmsh::model
{
void
getCurrent(std::string & a0)
{
  rec::begin("model::getCurrent");
  rec::mayThrow();
  rec::make(a0, 0);
}
}
namespace gmsh::model
{
void
setCurrent(const std::string & a0)
{
  rec::begin("model::setCurrent");
  rec::put(a0);
  rec::mayThrow();
}
}
namespace gmsh::model
{
void
getFileName(std::string & a0)
{
  rec::begin("model::getFileName");
  rec::mayThrow();
  rec::make(a0, 0);
}
}
namespace gmsh::model
{
void
setFileName(const std::string & a0)
{
  rec::begin("model::setFileName");
  rec::put(a0);
  rec::mayThrow();
}
}
namespace gmsh::model
{
void
getEntities(Pairs & a0, const int a1)
{
  rec::begin("model::getEntities");
  rec::put(a1);
  rec::mayThrow();
  rec::make(a0, 0);
}
}
namespace gmsh::model
{
void
setEntityName(const int a0, const int a1, const std::string & a2)
{
  rec::begin("model::setEntityName");
  rec::put(a0);
  rec::put(a1);
  rec::put(a2);
  rec::mayThrow();
}
}
namespace gmsh::model
{
void
getEntityName(const int a0, const int a1, std::string & a2)
{
  rec::begin("model::getEntityName");
  rec::put(a0);
  rec::put(a1);
  rec::mayThrow();
  rec::make(a2, 2);
}
}
namespace gmsh::model
{
void
getPhysicalGroups(Pairs & a0, const int a1)
{
  rec::begin("model::getPhysicalGroups");
  rec::put(a1);
  rec::mayThrow();
  rec::make(a0, 0);
}
}
namespace gmsh::model
{
void
getEntitiesForPhysicalGroup(const int a0, const int a1, std::vector<int> & a2)
{
  rec::begin("model::getEntitiesForPhysicalGroup");
  rec::put(a0);
  rec::put(a1);
  rec::mayThrow();
  rec::make(a2, 2);
}
}
namespace gmsh::model
{
void
getPhysicalGroupsForEntity(const int a0, const int a1, std::vector<int> & a2)
{
  rec::begin("model::getPhysicalGroupsForEntity");
  rec::put(a0);
  rec::put(a1);
  rec::mayThrow();
  rec::make(a2, 2);
}
}
namespace gmsh::model
{
int
addPhysicalGroup(const int a0, const std::vector<int> & a1, const int a2, const std::string & a3)
{
  rec::begin("model::addPhysicalGroup");
  rec::put(a0);
  rec::put(a1);
  rec::put(a2);
  rec::put(a3);
  rec::mayThrow();
  return rec::result<int>();
}
}
namespace gmsh::model
{
void
removePhysicalGroups(const Pairs & a0)
{
  rec::begin("model::removePhysicalGroups");
  rec::put(a0);
  rec::mayThrow();
}
}
namespace gmsh::model
{
void
setPhysicalName(const int a0, const int a1, const std::string & a2)
{
  rec::begin("model::setPhysicalName");
  rec::put(a0);
  rec::put(a1);
  rec::put(a2);
  rec::mayThrow();
}
}
namespace gmsh::model
{
void
removePhysicalName(const std::string & a0)
{
  rec::begin("model::removePhysicalName");
  rec::put(a0);
  rec::mayThrow();
}
}
namespace gmsh::model
{
void
getPhysicalName(const int a0, const int a1, std::string & a2)
{
  rec::begin("model::getPhysicalName");
  rec::put(a0);
  rec::put(a1);
  rec::mayThrow();
  rec::make(a2, 2);
}
}
namespace gmsh::model
{
void
setTag(const int a0, const int a1, const int a2)
{
  rec::begin("model::setTag");
  rec::put(a0);
  rec::put(a1);
  rec::put(a2);
  rec::mayThrow();
}
}
namespace gmsh::model
{
void
getBoundary(const Pairs & a0, Pairs & a1, const bool a2, const bool a3, const bool a4)
{
  rec::begin("model::getBoundary");
  rec::put(a0);
  rec::put(a2);
  rec::put(a3);
  rec::put(a4);
  rec::mayThrow();
  rec::make(a1, 1);
}
}
namespace gmsh::model
{
void
getAdjacencies(const int a0, const int a1, std::vector<int> & a2, std::vector<int> & a3)
{
  rec::begin("model::getAdjacencies");
  rec::put(a0);
  rec::put(a1);
  rec::mayThrow();
  rec::make(a2, 2);
  rec::make(a3, 3);
}
}
namespace gmsh::model
{
void
getEntitiesInBoundingBox(const double a0, const double a1, const double a2, const double a3, const double a4, const double a5, Pairs & a6, const int a7)
{
  rec::begin("model::getEntitiesInBoundingBox");
  rec::put(a0);
  rec::put(a1);
  rec::put(a2);
  rec::put(a3);
  rec::put(a4);
  rec::put(a5);
  rec::put(a7);
  rec::mayThrow();
  rec::make(a6, 6);
}
}
namespace gmsh::model
{
void
getBoundingBox(const int a0, const int a1, double & a2, double & a3, double & a4, double & a5, double & a6, double & a7)
{
  rec::begin("model::getBoundingBox");
  rec::put(a0);
  rec::put(a1);
  rec::mayThrow();
  rec::make(a2, 2);
  rec::make(a3, 3);
  rec::make(a4, 4);
  rec::make(a5, 5);
  rec::make(a6, 6);
  rec::make(a7, 7);
}
}
namespace gmsh::model
{
int
getDimension()
{
  rec::begin("model::getDimension");
  rec::mayThrow();
  return rec::result<int>();
}
}
namespace gmsh::model
{
int
addDiscreteEntity(const int a0, const int a1, const std::vector<int> & a2)
{
  rec::begin("model::addDiscreteEntity");
  rec::put(a0);
  rec::put(a1);
  rec::put(a2);
  rec::mayThrow();
  return rec::result<int>();
}
}
namespace gmsh::model
{
void
removeEntities(const Pairs & a0, const bool a1)
{
  rec::begin("model::removeEntities");
  rec::put(a0);
  rec::put(a1);
  rec::mayThrow();
}
}
namespace gmsh::model
{
void
removeEntityName(const std::string & a0)
{
  rec::begin("model::removeEntityName");
  rec::put(a0);
  rec::mayThrow();
}
}
namespace gmsh::model
{
void
getType(const int a0, const int a1, std::string & a2)
{
  rec::begin("model::getType");
  rec::put(a0);
  rec::put(a1);
  rec::mayThrow();
  rec::make(a2, 2);
}
}
namespace gmsh::model
{
void
getParent(const int a0, const int a1, int & a2, int & a3)
{
  rec::begin("model::getParent");
  rec::put(a0);
  rec::put(a1);
  rec::mayThrow();
  rec::make(a2, 2);
  rec::make(a3, 3);
}
}
namespace gmsh::model
{
int
getNumberOfPartitions()
{
  rec::begin("model::getNumberOfPartitions");
  rec::mayThrow();
  return rec::result<int>();
}
}
namespace gmsh::model
{
void
getPartitions(const int a0, const int a1, std::vector<int> & a2)
{
  rec::begin("model::getPartitions");
  rec::put(a0);
  rec::put(a1);
  rec::mayThrow();
  rec::make(a2, 2);
}
}
namespace gmsh::model
{
void
getValue(const int a0, const int a1, const std::vector<double> & a2, std::vector<double> & a3)
{
  rec::begin("model::getValue");
  rec::put(a0);
  rec::put(a1);
  rec::put(a2);
  rec::mayThrow();
  rec::make(a3, 3);
}
}
namespace gmsh::model
{
void
getDerivative(const int a0, const int a1, const std::vector<double> & a2, std::vector<double> & a3)
{
  rec::begin("model::getDerivative");
  rec::put(a0);
  rec::put(a1);
  rec::put(a2);
  rec::mayThrow();
  rec::make(a3, 3);
}
}
namespace gmsh::model
{
void
getSecondDerivative(const int a0, const int a1, const std::vector<double> & a2, std::vector<double> & a3)
{
  rec::begin("model::getSecondDerivative");
  rec::put(a0);
  rec::put(a1);
  rec::put(a2);
  rec::mayThrow();
  rec::make(a3, 3);
}
}
namespace gmsh::model
{
void
getCurvature(const int a0, const int a1, const std::vector<double> & a2, std::vector<double> & a3)
{
  rec::begin("model::getCurvature");
  rec::put(a0);
  rec::put(a1);
  rec::put(a2);
  rec::mayThrow();
  rec::make(a3, 3);
}
}
namespace gmsh::model
{
void
getPrincipalCurvatures(const int a0, const std::vector<double> & a1, std::vector<double> & a2, std::vector<double> & a3, std::vector<double> & a4, std::vector<double> & a5)
{
  rec::begin("model::getPrincipalCurvatures");
  rec::put(a0);
  rec::put(a1);
  rec::mayThrow();
  rec::make(a2, 2);
  rec::make(a3, 3);
  rec::make(a4, 4);
  rec::make(a5, 5);
}
}
namespace gmsh::model
{
void
getNormal(const int a0, const std::vector<double> & a1, std::vector<double> & a2)
{
  rec::begin("model::getNormal");
  rec::put(a0);
  rec::put(a1);
  rec::mayThrow();
  rec::make(a2, 2);
}
}
namespace gmsh::model
{
void
getParametrization(const int a0, const int a1, const std::vector<double> & a2, std::vector<double> & a3)
{
  rec::begin("model::getParametrization");
  rec::put(a0);
  rec::put(a1);
  rec::put(a2);
  rec::mayThrow();
  rec::make(a3, 3);
}
}
namespace gmsh::model
{
void
getParametrizationBounds(const int a0, const int a1, std::vector<double> & a2, std::vector<double> & a3)
{
  rec::begin("model::getParametrizationBounds");
  rec::put(a0);
  rec::put(a1);
  rec::mayThrow();
  rec::make(a2, 2);
  rec::make(a3, 3);
}
}
namespace gmsh::model
{
int
isInside(const int a0, const int a1, const std::vector<double> & a2, const bool a3)
{
  rec::begin("model::isInside");
  rec::put(a0);
  rec::put(a1);
  rec::put(a2);
  rec::put(a3);
  rec::mayThrow();
  return rec::result<int>();
}
}
namespace gmsh::model
{
void
getClosestPoint(const int a0, const int a1, const std::vector<double> & a2, std::vector<double> & a3, std::vector<double> & a4)
{
  rec::begin("model::getClosestPoint");
  rec::put(a0);
  rec::put(a1);
  rec::put(a2);
  rec::mayThrow();
  rec::make(a3, 3);
  rec::make(a4, 4);
}
}
namespace gmsh::model
{
void
reparametrizeOnSurface(const int a0, const int a1, const std::vector<double> & a2, const int a3, std::vector<double> & a4, const int a5)
{
  rec::begin("model::reparametrizeOnSurface");
  rec::put(a0);
  rec::put(a1);
  rec::put(a2);
  rec::put(a3);
  rec::put(a5);
  rec::mayThrow();
  rec::make(a4, 4);
}
}
namespace gmsh::model
{
void
setVisibility(const Pairs & a0, const int a1, const bool a2)
{
  rec::begin("model::setVisibility");
  rec::put(a0);
  rec::put(a1);
  rec::put(a2);
  rec::mayThrow();
}
}
namespace gmsh::model
{
void
getVisibility(const int a0, const int a1, int & a2)
{
  rec::begin("model::getVisibility");
  rec::put(a0);
  rec::put(a1);
  rec::mayThrow();
  rec::make(a2, 2);
}
}
namespace gmsh::model
{
void
setVisibilityPerWindow(const int a0, const int a1)
{
  rec::begin("model::setVisibilityPerWindow");
  rec::put(a0);
  rec::put(a1);
  rec::mayThrow();
}
}
namespace gmsh::model
{
void
setColor(const Pairs & a0, const int a1, const int a2, const int a3, const int a4, const bool a5)
{
  rec::begin("model::setColor");
  rec::put(a0);
  rec::put(a1);
  rec::put(a2);
  rec::put(a3);
  rec::put(a4);
  rec::put(a5);
  rec::mayThrow();
}
}
namespace gmsh::model
{
void
getColor(const int a0, const int a1, int & a2, int & a3, int & a4, int & a5)
{
  rec::begin("model::getColor");
  rec::put(a0);
  rec::put(a1);
  rec::mayThrow();
  rec::make(a2, 2);
  rec::make(a3, 3);
  rec::make(a4, 4);
  rec::make(a5, 5);
}
}
namespace gmsh::model
{
void
setCoordinates(const int a0, const double a1, const double a2, const double a3)
{
  rec::begin("model::setCoordinates");
  rec::put(a0);
  rec::put(a1);
  rec::put(a2);
  rec::put(a3);
  rec::mayThrow();
}
}
namespace gmsh::model::mesh
{
void
generate(const int a0)
{
  rec::begin("model::mesh::generate");
  rec::put(a0);
  rec::mayThrow();
}
}
namespace gmsh::model::mesh
{
void
partition(const int a0, const std::vector<std::size_t> & a1, const std::vector<int> & a2)
{
  rec::begin("model::mesh::partition");
  rec::put(a0);
  rec::put(a1);
  rec::put(a2);
  rec::mayThrow();
}
}
namespace gmsh::model::mesh
{
void
unpartition()
{
  rec::begin("model::mesh::unpartition");
  rec::mayThrow();
}
}
namespace gmsh::model::mesh
{
void
optimize(const std::string & a0, const bool a1, const int a2, const Pairs & a3)
{
  rec::begin("model::mesh::optimize");
  rec::put(a0);
  rec::put(a1);
  rec::put(a2);
  rec::put(a3);
  rec::mayThrow();
}
}
namespace gmsh::model::mesh
{
void
recombine()
{
  rec::begin("model::mesh::recombine");
  rec::mayThrow();
}
}
namespace gmsh::model::mesh
{
void
refine()
{
  rec::begin("model::mesh::refine");
  rec::mayThrow();
}
}
namespace gmsh::model::mesh
{
void
setOrder(const int a0)
{
  rec::begin("model::mesh::setOrder");
  rec::put(a0);
  rec::mayThrow();
}
}
namespace gmsh::model::mesh
{
void
getLastEntityError(Pairs & a0)
{
  rec::begin("model::mesh::getLastEntityError");
  rec::mayThrow();
  rec::make(a0, 0);
}
}
namespace gmsh::model::mesh
{
void
getLastNodeError(std::vector<std::size_t> & a0)
{
  rec::begin("model::mesh::getLastNodeError");
  rec::mayThrow();
  rec::make(a0, 0);
}
}
namespace gmsh::model::mesh
{
void
clear(const Pairs & a0)
{
  rec::begin("model::mesh::clear");
  rec::put(a0);
  rec::mayThrow();
}
}
namespace gmsh::model::mesh
{
void
reverse(const Pairs & a0)
{
  rec::begin("model::mesh::reverse");
  rec::put(a0);
  rec::mayThrow();
}
}
namespace gmsh::model::mesh
{
void
affineTransform(const std::vector<double> & a0, const Pairs & a1)
{
  rec::begin("model::mesh::affineTransform");
  rec::put(a0);
  rec::put(a1);
  rec::mayThrow();
}
}
namespace gmsh::model::mesh
{
void
getNodes(std::vector<std::size_t> & a0, std::vector<double> & a1, std::vector<double> & a2, const int a3, const int a4, const bool a5, const bool a6)
{
  rec::begin("model::mesh::getNodes");
  rec::put(a3);
  rec::put(a4);
  rec::put(a5);
  rec::put(a6);
  rec::mayThrow();
  rec::make(a0, 0);
  rec::make(a1, 1);
  rec::make(a2, 2);
}
}
namespace gmsh::model::mesh
{
void
getNodesByElementType(const int a0, std::vector<std::size_t> & a1, std::vector<double> & a2, std::vector<double> & a3, const int a4, const bool a5)
{
  rec::begin("model::mesh::getNodesByElementType");
  rec::put(a0);
  rec::put(a4);
  rec::put(a5);
  rec::mayThrow();
  rec::make(a1, 1);
  rec::make(a2, 2);
  rec::make(a3, 3);
}
}
namespace gmsh::model::mesh
{
void
getNode(const std::size_t a0, std::vector<double> & a1, std::vector<double> & a2, int & a3, int & a4)
{
  rec::begin("model::mesh::getNode");
  rec::put(a0);
  rec::mayThrow();
  rec::make(a1, 1);
  rec::make(a2, 2);
  rec::make(a3, 3);
  rec::make(a4, 4);
}
}
namespace gmsh::model::mesh
{
void
setNode(const std::size_t a0, const std::vector<double> & a1, const std::vector<double> & a2)
{
  rec::begin("model::mesh::setNode");
  rec::put(a0);
  rec::put(a1);
  rec::put(a2);
  rec::mayThrow();
}
}
namespace gmsh::model::mesh
{
void
rebuildNodeCache(const bool a0)
{
  rec::begin("model::mesh::rebuildNodeCache");
  rec::put(a0);
  rec::mayThrow();
}
}
namespace gmsh::model::mesh
{
void
rebuildElementCache(const bool a0)
{
  rec::begin("model::mesh::rebuildElementCache");
  rec::put(a0);
  rec::mayThrow();
}
}
namespace gmsh::model::mesh
{
void
getNodesForPhysicalGroup(const int a0, const int a1, std::vector<std::size_t> & a2, std::vector<double> & a3)
{
  rec::begin("model::mesh::getNodesForPhysicalGroup");
  rec::put(a0);
  rec::put(a1);
  rec::mayThrow();
  rec::make(a2, 2);
  rec::make(a3, 3);
}
}
namespace gmsh::model::mesh
{
void
getMaxNodeTag(std::size_t & a0)
{
  rec::begin("model::mesh::getMaxNodeTag");
  rec::mayThrow();
  rec::make(a0, 0);
}
}
namespace gmsh::model::mesh
{
void
addNodes(const int a0, const int a1, const std::vector<std::size_t> & a2, const std::vector<double> & a3, const std::vector<double> & a4)
{
  rec::begin("model::mesh::addNodes");
  rec::put(a0);
  rec::put(a1);
  rec::put(a2);
  rec::put(a3);
  rec::put(a4);
  rec::mayThrow();
}
}
namespace gmsh::model::mesh
{
void
reclassifyNodes()
{
  rec::begin("model::mesh::reclassifyNodes");
  rec::mayThrow();
}
}
namespace gmsh::model::mesh
{
void
relocateNodes(const int a0, const int a1)
{
  rec::begin("model::mesh::relocateNodes");
  rec::put(a0);
  rec::put(a1);
  rec::mayThrow();
}
}
namespace gmsh::model::mesh
{
void
getElements(std::vector<int> & a0, std::vector<std::vector<std::size_t>> & a1, std::vector<std::vector<std::size_t>> & a2, const int a3, const int a4)
{
  rec::begin("model::mesh::getElements");
  rec::put(a3);
  rec::put(a4);
  rec::mayThrow();
  rec::make(a0, 0);
  rec::make(a1, 1);
  rec::make(a2, 2);
}
}
namespace gmsh::model::mesh
{
void
getElement(const std::size_t a0, int & a1, std::vector<std::size_t> & a2, int & a3, int & a4)
{
  rec::begin("model::mesh::getElement");
  rec::put(a0);
  rec::mayThrow();
  rec::make(a1, 1);
  rec::make(a2, 2);
  rec::make(a3, 3);
  rec::make(a4, 4);
}
}
namespace gmsh::model::mesh
{
void
getElementByCoordinates(const double a0, const double a1, const double a2, std::size_t & a3, int & a4, std::vector<std::size_t> & a5, double & a6, double & a7, double & a8, const int a9, const bool a10)
{
  rec::begin("model::mesh::getElementByCoordinates");
  rec::put(a0);
  rec::put(a1);
  rec::put(a2);
  rec::put(a9);
  rec::put(a10);
  rec::mayThrow();
  rec::make(a3, 3);
  rec::make(a4, 4);
  rec::make(a5, 5);
  rec::make(a6, 6);
  rec::make(a7, 7);
  rec::make(a8, 8);
}
}
namespace gmsh::model::mesh
{
void
getElementsByCoordinates(const double a0, const double a1, const double a2, std::vector<std::size_t> & a3, const int a4, const bool a5)
{
  rec::begin("model::mesh::getElementsByCoordinates");
  rec::put(a0);
  rec::put(a1);
  rec::put(a2);
  rec::put(a4);
  rec::put(a5);
  rec::mayThrow();
  rec::make(a3, 3);
}
}
namespace gmsh::model::mesh
{
void
getLocalCoordinatesInElement(const std::size_t a0, const double a1, const double a2, const double a3, double & a4, double & a5, double & a6)
{
  rec::begin("model::mesh::getLocalCoordinatesInElement");
  rec::put(a0);
  rec::put(a1);
  rec::put(a2);
  rec::put(a3);
  rec::mayThrow();
  rec::make(a4, 4);
  rec::make(a5, 5);
  rec::make(a6, 6);
}
}
namespace gmsh::model::mesh
{
void
getElementTypes(std::vector<int> & a0, const int a1, const int a2)
{
  rec::begin("model::mesh::getElementTypes");
  rec::put(a1);
  rec::put(a2);
  rec::mayThrow();
  rec::make(a0, 0);
}
}
namespace gmsh::model::mesh
{
int
getElementType(const std::string & a0, const int a1, const bool a2)
{
  rec::begin("model::mesh::getElementType");
  rec::put(a0);
  rec::put(a1);
  rec::put(a2);
  rec::mayThrow();
  return rec::result<int>();
}
}
namespace gmsh::model::mesh
{
void
getElementProperties(const int a0, std::string & a1, int & a2, int & a3, int & a4, std::vector<double> & a5, int & a6)
{
  rec::begin("model::mesh::getElementProperties");
  rec::put(a0);
  rec::mayThrow();
  rec::make(a1, 1);
  rec::make(a2, 2);
  rec::make(a3, 3);
  rec::make(a4, 4);
  rec::make(a5, 5);
  rec::make(a6, 6);
}
}
namespace gmsh::model::mesh
{
void
getElementsByType(const int a0, std::vector<std::size_t> & a1, std::vector<std::size_t> & a2, const int a3, const std::size_t a4, const std::size_t a5)
{
  rec::begin("model::mesh::getElementsByType");
  rec::put(a0);
  rec::put(a3);
  rec::put(a4);
  rec::put(a5);
  rec::mayThrow();
  rec::make(a1, 1);
  rec::make(a2, 2);
}
}
namespace gmsh::model::mesh
{
void
getMaxElementTag(std::size_t & a0)
{
  rec::begin("model::mesh::getMaxElementTag");
  rec::mayThrow();
  rec::make(a0, 0);
}
}
namespace gmsh::model::mesh
{
void
preallocateElementsByType(const int a0, const bool a1, const bool a2, std::vector<std::size_t> & a3, std::vector<std::size_t> & a4, const int a5)
{
  rec::begin("model::mesh::preallocateElementsByType");
  rec::put(a0);
  rec::put(a1);
  rec::put(a2);
  rec::put(a5);
  rec::mayThrow();
  rec::make(a3, 3);
  rec::make(a4, 4);
}
}
namespace gmsh::model::mesh
{
void
getElementQualities(const std::vector<std::size_t> & a0, std::vector<double> & a1, const std::string & a2, const std::size_t a3, const std::size_t a4)
{
  rec::begin("model::mesh::getElementQualities");
  rec::put(a0);
  rec::put(a2);
  rec::put(a3);
  rec::put(a4);
  rec::mayThrow();
  rec::make(a1, 1);
}
}
namespace gmsh::model::mesh
{
void
addElements(const int a0, const int a1, const std::vector<int> & a2, const std::vector<std::vector<std::size_t>> & a3, const std::vector<std::vector<std::size_t>> & a4)
{
  rec::begin("model::mesh::addElements");
  rec::put(a0);
  rec::put(a1);
  rec::put(a2);
  rec::put(a3);
  rec::put(a4);
  rec::mayThrow();
}
}
namespace gmsh::model::mesh
{
void
addElementsByType(const int a0, const int a1, const std::vector<std::size_t> & a2, const std::vector<std::size_t> & a3)
{
  rec::begin("model::mesh::addElementsByType");
  rec::put(a0);
  rec::put(a1);
  rec::put(a2);
  rec::put(a3);
  rec::mayThrow();
}
}
namespace gmsh::model::mesh
{
void
getIntegrationPoints(const int a0, const std::string & a1, std::vector<double> & a2, std::vector<double> & a3)
{
  rec::begin("model::mesh::getIntegrationPoints");
  rec::put(a0);
  rec::put(a1);
  rec::mayThrow();
  rec::make(a2, 2);
  rec::make(a3, 3);
}
}
namespace gmsh::model::mesh
{
void
getJacobians(const int a0, const std::vector<double> & a1, std::vector<double> & a2, std::vector<double> & a3, std::vector<double> & a4, const int a5, const std::size_t a6, const std::size_t a7)
{
  rec::begin("model::mesh::getJacobians");
  rec::put(a0);
  rec::put(a1);
  rec::put(a5);
  rec::put(a6);
  rec::put(a7);
  rec::mayThrow();
  rec::make(a2, 2);
  rec::make(a3, 3);
  rec::make(a4, 4);
}
}
namespace gmsh::model::mesh
{
void
preallocateJacobians(const int a0, const int a1, const bool a2, const bool a3, const bool a4, std::vector<double> & a5, std::vector<double> & a6, std::vector<double> & a7, const int a8)
{
  rec::begin("model::mesh::preallocateJacobians");
  rec::put(a0);
  rec::put(a1);
  rec::put(a2);
  rec::put(a3);
  rec::put(a4);
  rec::put(a8);
  rec::mayThrow();
  rec::make(a5, 5);
  rec::make(a6, 6);
  rec::make(a7, 7);
}
}
namespace gmsh::model::mesh
{
void
getJacobian(const std::size_t a0, const std::vector<double> & a1, std::vector<double> & a2, std::vector<double> & a3, std::vector<double> & a4)
{
  rec::begin("model::mesh::getJacobian");
  rec::put(a0);
  rec::put(a1);
  rec::mayThrow();
  rec::make(a2, 2);
  rec::make(a3, 3);
  rec::make(a4, 4);
}
}
namespace gmsh::model::mesh
{
void
getBasisFunctions(const int a0, const std::vector<double> & a1, const std::string & a2, int & a3, std::vector<double> & a4, int & a5, const std::vector<int> & a6)
{
  rec::begin("model::mesh::getBasisFunctions");
  rec::put(a0);
  rec::put(a1);
  rec::put(a2);
  rec::put(a6);
  rec::mayThrow();
  rec::make(a3, 3);
  rec::make(a4, 4);
  rec::make(a5, 5);
}
}
namespace gmsh::model::mesh
{
void
getBasisFunctionsOrientation(const int a0, const std::string & a1, std::vector<int> & a2, const int a3, const std::size_t a4, const std::size_t a5)
{
  rec::begin("model::mesh::getBasisFunctionsOrientation");
  rec::put(a0);
  rec::put(a1);
  rec::put(a3);
  rec::put(a4);
  rec::put(a5);
  rec::mayThrow();
  rec::make(a2, 2);
}
}
namespace gmsh::model::mesh
{
void
getBasisFunctionsOrientationForElement(const std::size_t a0, const std::string & a1, int & a2)
{
  rec::begin("model::mesh::getBasisFunctionsOrientationForElement");
  rec::put(a0);
  rec::put(a1);
  rec::mayThrow();
  rec::make(a2, 2);
}
}
namespace gmsh::model::mesh
{
int
getNumberOfOrientations(const int a0, const std::string & a1)
{
  rec::begin("model::mesh::getNumberOfOrientations");
  rec::put(a0);
  rec::put(a1);
  rec::mayThrow();
  return rec::result<int>();
}
}
namespace gmsh::model::mesh
{
void
preallocateBasisFunctionsOrientation(const int a0, std::vector<int> & a1, const int a2)
{
  rec::begin("model::mesh::preallocateBasisFunctionsOrientation");
  rec::put(a0);
  rec::put(a2);
  rec::mayThrow();
  rec::make(a1, 1);
}
}
namespace gmsh::model::mesh
{
void
getEdges(const std::vector<std::size_t> & a0, std::vector<std::size_t> & a1, std::vector<int> & a2)
{
  rec::begin("model::mesh::getEdges");
  rec::put(a0);
  rec::mayThrow();
  rec::make(a1, 1);
  rec::make(a2, 2);
}
}
namespace gmsh::model::mesh
{
void
getFaces(const int a0, const std::vector<std::size_t> & a1, std::vector<std::size_t> & a2, std::vector<int> & a3)
{
  rec::begin("model::mesh::getFaces");
  rec::put(a0);
  rec::put(a1);
  rec::mayThrow();
  rec::make(a2, 2);
  rec::make(a3, 3);
}
}
namespace gmsh::model::mesh
{
void
createEdges(const Pairs & a0)
{
  rec::begin("model::mesh::createEdges");
  rec::put(a0);
  rec::mayThrow();
}
}
namespace gmsh::model::mesh
{
void
createFaces(const Pairs & a0)
{
  rec::begin("model::mesh::createFaces");
  rec::put(a0);
  rec::mayThrow();
}
}
namespace gmsh::model::mesh
{
void
getAllEdges(std::vector<std::size_t> & a0, std::vector<std::size_t> & a1)
{
  rec::begin("model::mesh::getAllEdges");
  rec::mayThrow();
  rec::make(a0, 0);
  rec::make(a1, 1);
}
}
namespace gmsh::model::mesh
{
void
getAllFaces(const int a0, std::vector<std::size_t> & a1, std::vector<std::size_t> & a2)
{
  rec::begin("model::mesh::getAllFaces");
  rec::put(a0);
  rec::mayThrow();
  rec::make(a1, 1);
  rec::make(a2, 2);
}
}
namespace gmsh::model::mesh
{
void
addEdges(const std::vector<std::size_t> & a0, const std::vector<std::size_t> & a1)
{
  rec::begin("model::mesh::addEdges");
  rec::put(a0);
  rec::put(a1);
  rec::mayThrow();
}
}
namespace gmsh::model::mesh
{
void
addFaces(const int a0, const std::vector<std::size_t> & a1, const std::vector<std::size_t> & a2)
{
  rec::begin("model::mesh::addFaces");
  rec::put(a0);
  rec::put(a1);
  rec::put(a2);
  rec::mayThrow();
}
}
namespace gmsh::model::mesh
{
void
getKeys(const int a0, const std::string & a1, std::vector<int> & a2, std::vector<std::size_t> & a3, std::vector<double> & a4, const int a5, const bool a6)
{
  rec::begin("model::mesh::getKeys");
  rec::put(a0);
  rec::put(a1);
  rec::put(a5);
  rec::put(a6);
  rec::mayThrow();
  rec::make(a2, 2);
  rec::make(a3, 3);
  rec::make(a4, 4);
}
}
namespace gmsh::model::mesh
{
void
getKeysForElement(const std::size_t a0, const std::string & a1, std::vector<int> & a2, std::vector<std::size_t> & a3, std::vector<double> & a4, const bool a5)
{
  rec::begin("model::mesh::getKeysForElement");
  rec::put(a0);
  rec::put(a1);
  rec::put(a5);
  rec::mayThrow();
  rec::make(a2, 2);
  rec::make(a3, 3);
  rec::make(a4, 4);
}
}
namespace gmsh::model::mesh
{
int
getNumberOfKeys(const int a0, const std::string & a1)
{
  rec::begin("model::mesh::getNumberOfKeys");
  rec::put(a0);
  rec::put(a1);
  rec::mayThrow();
  return rec::result<int>();
}
}
namespace gmsh::model::mesh
{
void
getKeysInformation(const std::vector<int> & a0, const std::vector<std::size_t> & a1, const int a2, const std::string & a3, Pairs & a4)
{
  rec::begin("model::mesh::getKeysInformation");
  rec::put(a0);
  rec::put(a1);
  rec::put(a2);
  rec::put(a3);
  rec::mayThrow();
  rec::make(a4, 4);
}
}
namespace gmsh::model::mesh
{
void
getBarycenters(const int a0, const int a1, const bool a2, const bool a3, std::vector<double> & a4, const std::size_t a5, const std::size_t a6)
{
  rec::begin("model::mesh::getBarycenters");
  rec::put(a0);
  rec::put(a1);
  rec::put(a2);
  rec::put(a3);
  rec::put(a5);
  rec::put(a6);
  rec::mayThrow();
  rec::make(a4, 4);
}
}
namespace gmsh::model::mesh
{
void
preallocateBarycenters(const int a0, std::vector<double> & a1, const int a2)
{
  rec::begin("model::mesh::preallocateBarycenters");
  rec::put(a0);
  rec::put(a2);
  rec::mayThrow();
  rec::make(a1, 1);
}
}
namespace gmsh::model::mesh
{
void
getElementEdgeNodes(const int a0, std::vector<std::size_t> & a1, const int a2, const bool a3, const std::size_t a4, const std::size_t a5)
{
  rec::begin("model::mesh::getElementEdgeNodes");
  rec::put(a0);
  rec::put(a2);
  rec::put(a3);
  rec::put(a4);
  rec::put(a5);
  rec::mayThrow();
  rec::make(a1, 1);
}
}
namespace gmsh::model::mesh
{
void
getElementFaceNodes(const int a0, const int a1, std::vector<std::size_t> & a2, const int a3, const bool a4, const std::size_t a5, const std::size_t a6)
{
  rec::begin("model::mesh::getElementFaceNodes");
  rec::put(a0);
  rec::put(a1);
  rec::put(a3);
  rec::put(a4);
  rec::put(a5);
  rec::put(a6);
  rec::mayThrow();
  rec::make(a2, 2);
}
}
namespace gmsh::model::mesh
{
void
getGhostElements(const int a0, const int a1, std::vector<std::size_t> & a2, std::vector<int> & a3)
{
  rec::begin("model::mesh::getGhostElements");
  rec::put(a0);
  rec::put(a1);
  rec::mayThrow();
  rec::make(a2, 2);
  rec::make(a3, 3);
}
}
namespace gmsh::model::mesh
{
void
setSize(const Pairs & a0, const double a1)
{
  rec::begin("model::mesh::setSize");
  rec::put(a0);
  rec::put(a1);
  rec::mayThrow();
}
}
namespace gmsh::model::mesh
{
void
getSizes(const Pairs & a0, std::vector<double> & a1)
{
  rec::begin("model::mesh::getSizes");
  rec::put(a0);
  rec::mayThrow();
  rec::make(a1, 1);
}
}
namespace gmsh::model::mesh
{
void
setSizeAtParametricPoints(const int a0, const int a1, const std::vector<double> & a2, const std::vector<double> & a3)
{
  rec::begin("model::mesh::setSizeAtParametricPoints");
  rec::put(a0);
  rec::put(a1);
  rec::put(a2);
  rec::put(a3);
  rec::mayThrow();
}
}
namespace gmsh::model::mesh
{
void
setSizeCallback(std::function<double(int, int, double, double, double, double)> a0)
{
  rec::begin("model::mesh::setSizeCallback");
  rec::put(a0);
  rec::mayThrow();
}
}
namespace gmsh::model::mesh
{
void
removeSizeCallback()
{
  rec::begin("model::mesh::removeSizeCallback");
  rec::mayThrow();
}
}
namespace gmsh::model::mesh
{
void
setTransfiniteCurve(const int a0, const int a1, const std::string & a2, const double a3)
{
  rec::begin("model::mesh::setTransfiniteCurve");
  rec::put(a0);
  rec::put(a1);
  rec::put(a2);
  rec::put(a3);
  rec::mayThrow();
}
}
namespace gmsh::model::mesh
{
void
setTransfiniteSurface(const int a0, const std::string & a1, const std::vector<int> & a2)
{
  rec::begin("model::mesh::setTransfiniteSurface");
  rec::put(a0);
  rec::put(a1);
  rec::put(a2);
  rec::mayThrow();
}
}
namespace gmsh::model::mesh
{
void
setTransfiniteVolume(const int a0, const std::vector<int> & a1)
{
  rec::begin("model::mesh::setTransfiniteVolume");
  rec::put(a0);
  rec::put(a1);
  rec::mayThrow();
}
}
namespace gmsh::model::mesh
{
void
setTransfiniteAutomatic(const Pairs & a0, const double a1, const bool a2)
{
  rec::begin("model::mesh::setTransfiniteAutomatic");
  rec::put(a0);
  rec::put(a1);
  rec::put(a2);
  rec::mayThrow();
}
}
namespace gmsh::model::mesh
{
void
setRecombine(const int a0, const int a1, const double a2)
{
  rec::begin("model::mesh::setRecombine");
  rec::put(a0);
  rec::put(a1);
  rec::put(a2);
  rec::mayThrow();
}
}
namespace gmsh::model::mesh
{
void
setSmoothing(const int a0, const int a1, const int a2)
{
  rec::begin("model::mesh::setSmoothing");
  rec::put(a0);
  rec::put(a1);
  rec::put(a2);
  rec::mayThrow();
}
}
namespace gmsh::model::mesh
{
void
setReverse(const int a0, const int a1, const bool a2)
{
  rec::begin("model::mesh::setReverse");
  rec::put(a0);
  rec::put(a1);
  rec::put(a2);
  rec::mayThrow();
}
}
namespace gmsh::model::mesh
{
void
setAlgorithm(const int a0, const int a1, const int a2)
{
  rec::begin("model::mesh::setAlgorithm");
  rec::put(a0);
  rec::put(a1);
  rec::put(a2);
  rec::mayThrow();
}
}
namespace gmsh::model::mesh
{
void
setSizeFromBoundary(const int a0, const int a1, const int a2)
{
  rec::begin("model::mesh::setSizeFromBoundary");
  rec::put(a0);
  rec::put(a1);
  rec::put(a2);
  rec::mayThrow();
}
}
namespace gmsh::model::mesh
{
void
setCompound(const int a0, const std::vector<int> & a1)
{
  rec::begin("model::mesh::setCompound");
  rec::put(a0);
  rec::put(a1);
  rec::mayThrow();
}
}
namespace gmsh::model::mesh
{
void
setOutwardOrientation(const int a0)
{
  rec::begin("model::mesh::setOutwardOrientation");
  rec::put(a0);
  rec::mayThrow();
}
}
namespace gmsh::model::mesh
{
void
removeConstraints(const Pairs & a0)
{
  rec::begin("model::mesh::removeConstraints");
  rec::put(a0);
  rec::mayThrow();
}
}
namespace gmsh::model::mesh
{
void
embed(const int a0, const std::vector<int> & a1, const int a2, const int a3)
{
  rec::begin("model::mesh::embed");
  rec::put(a0);
  rec::put(a1);
  rec::put(a2);
  rec::put(a3);
  rec::mayThrow();
}
}
namespace gmsh::model::mesh
{
void
removeEmbedded(const Pairs & a0, const int a1)
{
  rec::begin("model::mesh::removeEmbedded");
  rec::put(a0);
  rec::put(a1);
  rec::mayThrow();
}
}
namespace gmsh::model::mesh
{
void
getEmbedded(const int a0, const int a1, Pairs & a2)
{
  rec::begin("model::mesh::getEmbedded");
  rec::put(a0);
  rec::put(a1);
  rec::mayThrow();
  rec::make(a2, 2);
}
}
namespace gmsh::model::mesh
{
void
reorderElements(const int a0, const int a1, const std::vector<std::size_t> & a2)
{
  rec::begin("model::mesh::reorderElements");
  rec::put(a0);
  rec::put(a1);
  rec::put(a2);
  rec::mayThrow();
}
}
namespace gmsh::model::mesh
{
void
renumberNodes(const std::vector<std::size_t> & a0, const std::vector<std::size_t> & a1)
{
  rec::begin("model::mesh::renumberNodes");
  rec::put(a0);
  rec::put(a1);
  rec::mayThrow();
}
}
namespace gmsh::model::mesh
{
void
renumberElements(const std::vector<std::size_t> & a0, const std::vector<std::size_t> & a1)
{
  rec::begin("model::mesh::renumberElements");
  rec::put(a0);
  rec::put(a1);
  rec::mayThrow();
}
}
namespace gmsh::model::mesh
{
void
setPeriodic(const int a0, const std::vector<int> & a1, const std::vector<int> & a2, const std::vector<double> & a3)
{
  rec::begin("model::mesh::setPeriodic");
  rec::put(a0);
  rec::put(a1);
  rec::put(a2);
  rec::put(a3);
  rec::mayThrow();
}
}
namespace gmsh::model::mesh
{
void
getPeriodic(const int a0, const std::vector<int> & a1, std::vector<int> & a2)
{
  rec::begin("model::mesh::getPeriodic");
  rec::put(a0);
  rec::put(a1);
  rec::mayThrow();
  rec::make(a2, 2);
}
}
namespace gmsh::model::mesh
{
void
getPeriodicNodes(const int a0, const int a1, int & a2, std::vector<std::size_t> & a3, std::vector<std::size_t> & a4, std::vector<double> & a5, const bool a6)
{
  rec::begin("model::mesh::getPeriodicNodes");
  rec::put(a0);
  rec::put(a1);
  rec::put(a6);
  rec::mayThrow();
  rec::make(a2, 2);
  rec::make(a3, 3);
  rec::make(a4, 4);
  rec::make(a5, 5);
}
}
namespace gmsh::model::mesh
{
void
getPeriodicKeys(const int a0, const std::string & a1, const int a2, int & a3, std::vector<int> & a4, std::vector<int> & a5, std::vector<std::size_t> & a6, std::vector<std::size_t> & a7, std::vector<double> & a8, std::vector<double> & a9, const bool a10)
{
  rec::begin("model::mesh::getPeriodicKeys");
  rec::put(a0);
  rec::put(a1);
  rec::put(a2);
  rec::put(a10);
  rec::mayThrow();
  rec::make(a3, 3);
  rec::make(a4, 4);
  rec::make(a5, 5);
  rec::make(a6, 6);
  rec::make(a7, 7);
  rec::make(a8, 8);
  rec::make(a9, 9);
}
}
namespace gmsh::model::mesh
{
void
importStl()
{
  rec::begin("model::mesh::importStl");
  rec::mayThrow();
}
}
namespace gmsh::model::mesh
{
void
getDuplicateNodes(std::vector<std::size_t> & a0, const Pairs & a1)
{
  rec::begin("model::mesh::getDuplicateNodes");
  rec::put(a1);
  rec::mayThrow();
  rec::make(a0, 0);
}
}
namespace gmsh::model::mesh
{
void
removeDuplicateNodes(const Pairs & a0)
{
  rec::begin("model::mesh::removeDuplicateNodes");
  rec::put(a0);
  rec::mayThrow();
}
}
namespace gmsh::model::mesh
{
void
splitQuadrangles(const double a0, const int a1)
{
  rec::begin("model::mesh::splitQuadrangles");
  rec::put(a0);
  rec::put(a1);
  rec::mayThrow();
}
}
namespace gmsh::model::mesh
{
void
setVisibility(const std::vector<std::size_t> & a0, const int a1)
{
  rec::begin("model::mesh::setVisibility");
  rec::put(a0);
  rec::put(a1);
  rec::mayThrow();
}
}
namespace gmsh::model::mesh
{
void
classifySurfaces(const double a0, const bool a1, const bool a2, const double a3, const bool a4)
{
  rec::begin("model::mesh::classifySurfaces");
  rec::put(a0);
  rec::put(a1);
  rec::put(a2);
  rec::put(a3);
  rec::put(a4);
  rec::mayThrow();
}
}
namespace gmsh::model::mesh
{
void
createGeometry(const Pairs & a0)
{
  rec::begin("model::mesh::createGeometry");
  rec::put(a0);
  rec::mayThrow();
}
}
namespace gmsh::model::mesh
{
void
createTopology(const bool a0, const bool a1)
{
  rec::begin("model::mesh::createTopology");
  rec::put(a0);
  rec::put(a1);
  rec::mayThrow();
}
}
namespace gmsh::model::mesh
{
void
addHomologyRequest(const std::string & a0, const std::vector<int> & a1, const std::vector<int> & a2, const std::vector<int> & a3)
{
  rec::begin("model::mesh::addHomologyRequest");
  rec::put(a0);
  rec::put(a1);
  rec::put(a2);
  rec::put(a3);
  rec::mayThrow();
}
}
namespace gmsh::model::mesh
{
void
clearHomologyRequests()
{
  rec::begin("model::mesh::clearHomologyRequests");
  rec::mayThrow();
}
}
namespace gmsh::model::mesh
{
void
computeCrossField(std::vector<int> & a0)
{
  rec::begin("model::mesh::computeCrossField");
  rec::mayThrow();
  rec::make(a0, 0);
}
}
namespace gmsh::model::mesh
{
void
triangulate(const std::vector<double> & a0, std::vector<std::size_t> & a1)
{
  rec::begin("model::mesh::triangulate");
  rec::put(a0);
  rec::mayThrow();
  rec::make(a1, 1);
}
}
namespace gmsh::model::mesh
{
void
tetrahedralize(const std::vector<double> & a0, std::vector<std::size_t> & a1)
{
  rec::begin("model::mesh::tetrahedralize");
  rec::put(a0);
  rec::mayThrow();
  rec::make(a1, 1);
}
}
namespace gmsh::model::mesh::field
{
int
add(const std::string & a0, const int a1)
{
  rec::begin("model::mesh::field::add");
  rec::put(a0);
  rec::put(a1);
  rec::mayThrow();
  return rec::result<int>();
}
}
namespace gmsh::model::mesh::field
{
void
remove(const int a0)
{
  rec::begin("model::mesh::field::remove");
  rec::put(a0);
  rec::mayThrow();
}
}
namespace gmsh::model::mesh::field
{
void
list(std::vector<int> & a0)
{
  rec::begin("model::mesh::field::list");
  rec::mayThrow();
  rec::make(a0, 0);
}
}
namespace gmsh::model::mesh::field
{
void
getType(const int a0, std::string & a1)
{
  rec::begin("model::mesh::field::getType");
  rec::put(a0);
  rec::mayThrow();
  rec::make(a1, 1);
}
}
namespace gmsh::model::mesh::field
{
void
setNumber(const int a0, const std::string & a1, const double a2)
{
  rec::begin("model::mesh::field::setNumber");
  rec::put(a0);
  rec::put(a1);
  rec::put(a2);
  rec::mayThrow();
}
}
namespace gmsh::model::mesh::field
{
void
getNumber(const int a0, const std::string & a1, double & a2)
{
  rec::begin("model::mesh::field::getNumber");
  rec::put(a0);
  rec::put(a1);
  rec::mayThrow();
  rec::make(a2, 2);
}
}
namespace gmsh::model::mesh::field
{
void
setString(const int a0, const std::string & a1, const std::string & a2)
{
  rec::begin("model::mesh::field::setString");
  rec::put(a0);
  rec::put(a1);
  rec::put(a2);
  rec::mayThrow();
}
}
namespace gmsh::model::mesh::field
{
void
getString(const int a0, const std::string & a1, std::string & a2)
{
  rec::begin("model::mesh::field::getString");
  rec::put(a0);
  rec::put(a1);
  rec::mayThrow();
  rec::make(a2, 2);
}
}
namespace gmsh::model::mesh::field
{
void
setNumbers(const int a0, const std::string & a1, const std::vector<double> & a2)
{
  rec::begin("model::mesh::field::setNumbers");
  rec::put(a0);
  rec::put(a1);
  rec::put(a2);
  rec::mayThrow();
}
}
namespace gmsh::model::mesh::field
{
void
getNumbers(const int a0, const std::string & a1, std::vector<double> & a2)
{
  rec::begin("model::mesh::field::getNumbers");
  rec::put(a0);
  rec::put(a1);
  rec::mayThrow();
  rec::make(a2, 2);
}
}
namespace gmsh::model::mesh::field
{
void
setAsBackgroundMesh(const int a0)
{
  rec::begin("model::mesh::field::setAsBackgroundMesh");
  rec::put(a0);
  rec::mayThrow();
}
}
namespace gmsh::model::mesh::field
{
void
setAsBoundaryLayer(const int a0)
{
  rec::begin("model::mesh::field::setAsBoundaryLayer");
  rec::put(a0);
  rec::mayThrow();
}
}
namespace gmsh::model::geo
{
int
addPoint(const double a0, const double a1, const double a2, const double a3, const int a4)
{
  rec::begin("model::geo::addPoint");
  rec::put(a0);
  rec::put(a1);
  rec::put(a2);
  rec::put(a3);
  rec::put(a4);
  rec::mayThrow();
  return rec::result<int>();
}
}
namespace gmsh::model::geo
{
int
addLine(const int a0, const int a1, const int a2)
{
  rec::begin("model::geo::addLine");
  rec::put(a0);
  rec::put(a1);
  rec::put(a2);
  rec::mayThrow();
  return rec::result<int>();
}
}
namespace gmsh::model::geo
{
int
addCircleArc(const int a0, const int a1, const int a2, const int a3, const double a4, const double a5, const double a6)
{
  rec::begin("model::geo::addCircleArc");
  rec::put(a0);
  rec::put(a1);
  rec::put(a2);
  rec::put(a3);
  rec::put(a4);
  rec::put(a5);
  rec::put(a6);
  rec::mayThrow();
  return rec::result<int>();
}
}
namespace gmsh::model::geo
{
int
addEllipseArc(const int a0, const int a1, const int a2, const int a3, const int a4, const double a5, const double a6, const double a7)
{
  rec::begin("model::geo::addEllipseArc");
  rec::put(a0);
  rec::put(a1);
  rec::put(a2);
  rec::put(a3);
  rec::put(a4);
  rec::put(a5);
  rec::put(a6);
  rec::put(a7);
  rec::mayThrow();
  return rec::result<int>();
}
}
namespace gmsh::model::geo
{
int
addBSpline(const std::vector<int> & a0, const int a1)
{
  rec::begin("model::geo::addBSpline");
  rec::put(a0);
  rec::put(a1);
  rec::mayThrow();
  return rec::result<int>();
}
}
namespace gmsh::model::geo
{
int
addBezier(const std::vector<int> & a0, const int a1)
{
  rec::begin("model::geo::addBezier");
  rec::put(a0);
  rec::put(a1);
  rec::mayThrow();
  return rec::result<int>();
}
}
namespace gmsh::model::geo
{
int
addPolyline(const std::vector<int> & a0, const int a1)
{
  rec::begin("model::geo::addPolyline");
  rec::put(a0);
  rec::put(a1);
  rec::mayThrow();
  return rec::result<int>();
}
}
namespace gmsh::model::geo
{
int
addCompoundSpline(const std::vector<int> & a0, const int a1, const int a2)
{
  rec::begin("model::geo::addCompoundSpline");
  rec::put(a0);
  rec::put(a1);
  rec::put(a2);
  rec::mayThrow();
  return rec::result<int>();
}
}
namespace gmsh::model::geo
{
int
addCompoundBSpline(const std::vector<int> & a0, const int a1, const int a2)
{
  rec::begin("model::geo::addCompoundBSpline");
  rec::put(a0);
  rec::put(a1);
  rec::put(a2);
  rec::mayThrow();
  return rec::result<int>();
}
}
namespace gmsh::model::geo
{
int
addCurveLoop(const std::vector<int> & a0, const int a1, const bool a2)
{
  rec::begin("model::geo::addCurveLoop");
  rec::put(a0);
  rec::put(a1);
  rec::put(a2);
  rec::mayThrow();
  return rec::result<int>();
}
}
namespace gmsh::model::geo
{
void
addCurveLoops(const std::vector<int> & a0, std::vector<int> & a1)
{
  rec::begin("model::geo::addCurveLoops");
  rec::put(a0);
  rec::mayThrow();
  rec::make(a1, 1);
}
}
namespace gmsh::model::geo
{
int
addPlaneSurface(const std::vector<int> & a0, const int a1)
{
  rec::begin("model::geo::addPlaneSurface");
  rec::put(a0);
  rec::put(a1);
  rec::mayThrow();
  return rec::result<int>();
}
}
namespace gmsh::model::geo
{
int
addSurfaceFilling(const std::vector<int> & a0, const int a1, const int a2)
{
  rec::begin("model::geo::addSurfaceFilling");
  rec::put(a0);
  rec::put(a1);
  rec::put(a2);
  rec::mayThrow();
  return rec::result<int>();
}
}
namespace gmsh::model::geo
{
void
revolve(const Pairs & a0, const double a1, const double a2, const double a3, const double a4, const double a5, const double a6, const double a7, Pairs & a8, const std::vector<int> & a9, const std::vector<double> & a10, const bool a11)
{
  rec::begin("model::geo::revolve");
  rec::put(a0);
  rec::put(a1);
  rec::put(a2);
  rec::put(a3);
  rec::put(a4);
  rec::put(a5);
  rec::put(a6);
  rec::put(a7);
  rec::put(a9);
  rec::put(a10);
  rec::put(a11);
  rec::mayThrow();
  rec::make(a8, 8);
}
}
namespace gmsh::model::geo
{
void
twist(const Pairs & a0, const double a1, const double a2, const double a3, const double a4, const double a5, const double a6, const double a7, const double a8, const double a9, const double a10, Pairs & a11, const std::vector<int> & a12, const std::vector<double> & a13, const bool a14)
{
  rec::begin("model::geo::twist");
  rec::put(a0);
  rec::put(a1);
  rec::put(a2);
  rec::put(a3);
  rec::put(a4);
  rec::put(a5);
  rec::put(a6);
  rec::put(a7);
  rec::put(a8);
  rec::put(a9);
  rec::put(a10);
  rec::put(a12);
  rec::put(a13);
  rec::put(a14);
  rec::mayThrow();
  rec::make(a11, 11);
}
}
namespace gmsh::model::geo
{
void
extrudeBoundaryLayer(const Pairs & a0, Pairs & a1, const std::vector<int> & a2, const std::vector<double> & a3, const bool a4, const bool a5, const int a6)
{
  rec::begin("model::geo::extrudeBoundaryLayer");
  rec::put(a0);
  rec::put(a2);
  rec::put(a3);
  rec::put(a4);
  rec::put(a5);
  rec::put(a6);
  rec::mayThrow();
  rec::make(a1, 1);
}
}
namespace gmsh::model::geo
{
void
translate(const Pairs & a0, const double a1, const double a2, const double a3)
{
  rec::begin("model::geo::translate");
  rec::put(a0);
  rec::put(a1);
  rec::put(a2);
  rec::put(a3);
  rec::mayThrow();
}
}
namespace gmsh::model::geo
{
void
rotate(const Pairs & a0, const double a1, const double a2, const double a3, const double a4, const double a5, const double a6, const double a7)
{
  rec::begin("model::geo::rotate");
  rec::put(a0);
  rec::put(a1);
  rec::put(a2);
  rec::put(a3);
  rec::put(a4);
  rec::put(a5);
  rec::put(a6);
  rec::put(a7);
  rec::mayThrow();
}
}
namespace gmsh::model::geo
{
void
dilate(const Pairs & a0, const double a1, const double a2, const double a3, const double a4, const double a5, const double a6)
{
  rec::begin("model::geo::dilate");
  rec::put(a0);
  rec::put(a1);
  rec::put(a2);
  rec::put(a3);
  rec::put(a4);
  rec::put(a5);
  rec::put(a6);
  rec::mayThrow();
}
}
namespace gmsh::model::geo
{
void
mirror(const Pairs & a0, const double a1, const double a2, const double a3, const double a4)
{
  rec::begin("model::geo::mirror");
  rec::put(a0);
  rec::put(a1);
  rec::put(a2);
  rec::put(a3);
  rec::put(a4);
  rec::mayThrow();
}
}
namespace gmsh::model::geo
{
void
symmetrize(const Pairs & a0, const double a1, const double a2, const double a3, const double a4)
{
  rec::begin("model::geo::symmetrize");
  rec::put(a0);
  rec::put(a1);
  rec::put(a2);
  rec::put(a3);
  rec::put(a4);
  rec::mayThrow();
}
}
namespace gmsh::model::geo
{
void
copy(const Pairs & a0, Pairs & a1)
{
  rec::begin("model::geo::copy");
  rec::put(a0);
  rec::mayThrow();
  rec::make(a1, 1);
}
}
namespace gmsh::model::geo
{
void
remove(const Pairs & a0, const bool a1)
{
  rec::begin("model::geo::remove");
  rec::put(a0);
  rec::put(a1);
  rec::mayThrow();
}
}
namespace gmsh::model::geo
{
void
removeAllDuplicates()
{
  rec::begin("model::geo::removeAllDuplicates");
  rec::mayThrow();
}
}
namespace gmsh::model::geo
{
void
splitCurve(const int a0, const std::vector<int> & a1, std::vector<int> & a2)
{
  rec::begin("model::geo::splitCurve");
  rec::put(a0);
  rec::put(a1);
  rec::mayThrow();
  rec::make(a2, 2);
}
}
namespace gmsh::model::geo
{
int
getMaxTag(const int a0)
{
  rec::begin("model::geo::getMaxTag");
  rec::put(a0);
  rec::mayThrow();
  return rec::result<int>();
}
}
namespace gmsh::model::geo
{
void
setMaxTag(const int a0, const int a1)
{
  rec::begin("model::geo::setMaxTag");
  rec::put(a0);
  rec::put(a1);
  rec::mayThrow();
}
}
namespace gmsh::model::geo
{
int
addPhysicalGroup(const int a0, const std::vector<int> & a1, const int a2, const std::string & a3)
{
  rec::begin("model::geo::addPhysicalGroup");
  rec::put(a0);
  rec::put(a1);
  rec::put(a2);
  rec::put(a3);
  rec::mayThrow();
  return rec::result<int>();
}
}
namespace gmsh::model::geo
{
void
removePhysicalGroups(const Pairs & a0)
{
  rec::begin("model::geo::removePhysicalGroups");
  rec::put(a0);
  rec::mayThrow();
}
}
namespace gmsh::model::geo
{
void
synchronize()
{
  rec::begin("model::geo::synchronize");
  rec::mayThrow();
}
}
namespace gmsh::model::geo::mesh
{
void
setSize(const Pairs & a0, const double a1)
{
  rec::begin("model::geo::mesh::setSize");
  rec::put(a0);
  rec::put(a1);
  rec::mayThrow();
}
}
namespace gmsh::model::geo::mesh
{
void
setTransfiniteCurve(const int a0, const int a1, const std::string & a2, const double a3)
{
  rec::begin("model::geo::mesh::setTransfiniteCurve");
  rec::put(a0);
  rec::put(a1);
  rec::put(a2);
  rec::put(a3);
  rec::mayThrow();
}
}
namespace gmsh::model::geo::mesh
{
void
setTransfiniteSurface(const int a0, const std::string & a1, const std::vector<int> & a2)
{
  rec::begin("model::geo::mesh::setTransfiniteSurface");
  rec::put(a0);
  rec::put(a1);
  rec::put(a2);
  rec::mayThrow();
}
}
namespace gmsh::model::geo::mesh
{
void
setTransfiniteVolume(const int a0, const std::vector<int> & a1)
{
  rec::begin("model::geo::mesh::setTransfiniteVolume");
  rec::put(a0);
  rec::put(a1);
  rec::mayThrow();
}
}
namespace gmsh::model::geo::mesh
{
void
setRecombine(const int a0, const int a1, const double a2)
{
  rec::begin("model::geo::mesh::setRecombine");
  rec::put(a0);
  rec::put(a1);
  rec::put(a2);
  rec::mayThrow();
}
}
namespace gmsh::model::geo::mesh
{
void
setSmoothing(const int a0, const int a1, const int a2)
{
  rec::begin("model::geo::mesh::setSmoothing");
  rec::put(a0);
  rec::put(a1);
  rec::put(a2);
  rec::mayThrow();
}
}
namespace gmsh::model::geo::mesh
{
void
setReverse(const int a0, const int a1, const bool a2)
{
  rec::begin("model::geo::mesh::setReverse");
  rec::put(a0);
  rec::put(a1);
  rec::put(a2);
  rec::mayThrow();
}
}
namespace gmsh::model::geo::mesh
{
void
setAlgorithm(const int a0, const int a1, const int a2)
{
  rec::begin("model::geo::mesh::setAlgorithm");
  rec::put(a0);
  rec::put(a1);
  rec::put(a2);
  rec::mayThrow();
}
}
namespace gmsh::model::geo::mesh
{
void
setSizeFromBoundary(const int a0, const int a1, const int a2)
{
  rec::begin("model::geo::mesh::setSizeFromBoundary");
  rec::put(a0);
  rec::put(a1);
  rec::put(a2);
  rec::mayThrow();
}
}
namespace gmsh::model::occ
{
int
addPoint(const double a0, const double a1, const double a2, const double a3, const int a4)
{
  rec::begin("model::occ::addPoint");
  rec::put(a0);
  rec::put(a1);
  rec::put(a2);
  rec::put(a3);
  rec::put(a4);
  rec::mayThrow();
  return rec::result<int>();
}
}
namespace gmsh::model::occ
{
int
addLine(const int a0, const int a1, const int a2)
{
  rec::begin("model::occ::addLine");
  rec::put(a0);
  rec::put(a1);
  rec::put(a2);
  rec::mayThrow();
  return rec::result<int>();
}
}
namespace gmsh::model::occ
{
int
addCircleArc(const int a0, const int a1, const int a2, const int a3, const bool a4)
{
  rec::begin("model::occ::addCircleArc");
  rec::put(a0);
  rec::put(a1);
  rec::put(a2);
  rec::put(a3);
  rec::put(a4);
  rec::mayThrow();
  return rec::result<int>();
}
}
namespace gmsh::model::occ
{
int
addCircle(const double a0, const double a1, const double a2, const double a3, const int a4, const double a5, const double a6, const std::vector<double> & a7, const std::vector<double> & a8)
{
  rec::begin("model::occ::addCircle");
  rec::put(a0);
  rec::put(a1);
  rec::put(a2);
  rec::put(a3);
  rec::put(a4);
  rec::put(a5);
  rec::put(a6);
  rec::put(a7);
  rec::put(a8);
  rec::mayThrow();
  return rec::result<int>();
}
}
namespace gmsh::model::occ
{
int
addEllipseArc(const int a0, const int a1, const int a2, const int a3, const int a4)
{
  rec::begin("model::occ::addEllipseArc");
  rec::put(a0);
  rec::put(a1);
  rec::put(a2);
  rec::put(a3);
  rec::put(a4);
  rec::mayThrow();
  return rec::result<int>();
}
}
namespace gmsh::model::occ
{
int
addEllipse(const double a0, const double a1, const double a2, const double a3, const double a4, const int a5, const double a6, const double a7, const std::vector<double> & a8, const std::vector<double> & a9)
{
  rec::begin("model::occ::addEllipse");
  rec::put(a0);
  rec::put(a1);
  rec::put(a2);
  rec::put(a3);
  rec::put(a4);
  rec::put(a5);
  rec::put(a6);
  rec::put(a7);
  rec::put(a8);
  rec::put(a9);
  rec::mayThrow();
  return rec::result<int>();
}
}
namespace gmsh::model::occ
{
int
addBSpline(const std::vector<int> & a0, const int a1, const int a2, const std::vector<double> & a3, const std::vector<double> & a4, const std::vector<int> & a5)
{
  rec::begin("model::occ::addBSpline");
  rec::put(a0);
  rec::put(a1);
  rec::put(a2);
  rec::put(a3);
  rec::put(a4);
  rec::put(a5);
  rec::mayThrow();
  return rec::result<int>();
}
}
namespace gmsh::model::occ
{
int
addBezier(const std::vector<int> & a0, const int a1)
{
  rec::begin("model::occ::addBezier");
  rec::put(a0);
  rec::put(a1);
  rec::mayThrow();
  return rec::result<int>();
}
}
namespace gmsh::model::occ
{
int
addWire(const std::vector<int> & a0, const int a1, const bool a2)
{
  rec::begin("model::occ::addWire");
  rec::put(a0);
  rec::put(a1);
  rec::put(a2);
  rec::mayThrow();
  return rec::result<int>();
}
}
namespace gmsh::model::occ
{
int
addCurveLoop(const std::vector<int> & a0, const int a1)
{
  rec::begin("model::occ::addCurveLoop");
  rec::put(a0);
  rec::put(a1);
  rec::mayThrow();
  return rec::result<int>();
}
}
namespace gmsh::model::occ
{
int
addRectangle(const double a0, const double a1, const double a2, const double a3, const double a4, const int a5, const double a6)
{
  rec::begin("model::occ::addRectangle");
  rec::put(a0);
  rec::put(a1);
  rec::put(a2);
  rec::put(a3);
  rec::put(a4);
  rec::put(a5);
  rec::put(a6);
  rec::mayThrow();
  return rec::result<int>();
}
}
namespace gmsh::model::occ
{
int
addDisk(const double a0, const double a1, const double a2, const double a3, const double a4, const int a5, const std::vector<double> & a6, const std::vector<double> & a7)
{
  rec::begin("model::occ::addDisk");
  rec::put(a0);
  rec::put(a1);
  rec::put(a2);
  rec::put(a3);
  rec::put(a4);
  rec::put(a5);
  rec::put(a6);
  rec::put(a7);
  rec::mayThrow();
  return rec::result<int>();
}
}
namespace gmsh::model::occ
{
int
addPlaneSurface(const std::vector<int> & a0, const int a1)
{
  rec::begin("model::occ::addPlaneSurface");
  rec::put(a0);
  rec::put(a1);
  rec::mayThrow();
  return rec::result<int>();
}
}
namespace gmsh::model::occ
{
int
addSurfaceFilling(const int a0, const int a1, const std::vector<int> & a2, const int a3, const int a4, const int a5, const bool a6, const double a7, const double a8, const double a9, const double a10, const int a11, const int a12)
{
  rec::begin("model::occ::addSurfaceFilling");
  rec::put(a0);
  rec::put(a1);
  rec::put(a2);
  rec::put(a3);
  rec::put(a4);
  rec::put(a5);
  rec::put(a6);
  rec::put(a7);
  rec::put(a8);
  rec::put(a9);
  rec::put(a10);
  rec::put(a11);
  rec::put(a12);
  rec::mayThrow();
  return rec::result<int>();
}
}
namespace gmsh::model::occ
{
int
addBSplineFilling(const int a0, const int a1, const std::string & a2)
{
  rec::begin("model::occ::addBSplineFilling");
  rec::put(a0);
  rec::put(a1);
  rec::put(a2);
  rec::mayThrow();
  return rec::result<int>();
}
}
namespace gmsh::model::occ
{
int
addBezierFilling(const int a0, const int a1, const std::string & a2)
{
  rec::begin("model::occ::addBezierFilling");
  rec::put(a0);
  rec::put(a1);
  rec::put(a2);
  rec::mayThrow();
  return rec::result<int>();
}
}
namespace gmsh::model::occ
{
int
addBSplineSurface(const std::vector<int> & a0, const int a1, const int a2, const int a3, const int a4, const std::vector<double> & a5, const std::vector<double> & a6, const std::vector<double> & a7, const std::vector<int> & a8, const std::vector<int> & a9, const std::vector<int> & a10, const bool a11)
{
  rec::begin("model::occ::addBSplineSurface");
  rec::put(a0);
  rec::put(a1);
  rec::put(a2);
  rec::put(a3);
  rec::put(a4);
  rec::put(a5);
  rec::put(a6);
  rec::put(a7);
  rec::put(a8);
  rec::put(a9);
  rec::put(a10);
  rec::put(a11);
  rec::mayThrow();
  return rec::result<int>();
}
}
namespace gmsh::model::occ
{
int
addBezierSurface(const std::vector<int> & a0, const int a1, const int a2, const std::vector<int> & a3, const bool a4)
{
  rec::begin("model::occ::addBezierSurface");
  rec::put(a0);
  rec::put(a1);
  rec::put(a2);
  rec::put(a3);
  rec::put(a4);
  rec::mayThrow();
  return rec::result<int>();
}
}
namespace gmsh::model::occ
{
int
addTrimmedSurface(const int a0, const std::vector<int> & a1, const bool a2, const int a3)
{
  rec::begin("model::occ::addTrimmedSurface");
  rec::put(a0);
  rec::put(a1);
  rec::put(a2);
  rec::put(a3);
  rec::mayThrow();
  return rec::result<int>();
}
}
namespace gmsh::model::occ
{
int
addSurfaceLoop(const std::vector<int> & a0, const int a1, const bool a2)
{
  rec::begin("model::occ::addSurfaceLoop");
  rec::put(a0);
  rec::put(a1);
  rec::put(a2);
  rec::mayThrow();
  return rec::result<int>();
}
}
namespace gmsh::model::occ
{
int
addVolume(const std::vector<int> & a0, const int a1)
{
  rec::begin("model::occ::addVolume");
  rec::put(a0);
  rec::put(a1);
  rec::mayThrow();
  return rec::result<int>();
}
}
namespace gmsh::model::occ
{
int
addSphere(const double a0, const double a1, const double a2, const double a3, const int a4, const double a5, const double a6, const double a7)
{
  rec::begin("model::occ::addSphere");
  rec::put(a0);
  rec::put(a1);
  rec::put(a2);
  rec::put(a3);
  rec::put(a4);
  rec::put(a5);
  rec::put(a6);
  rec::put(a7);
  rec::mayThrow();
  return rec::result<int>();
}
}
namespace gmsh::model::occ
{
int
addBox(const double a0, const double a1, const double a2, const double a3, const double a4, const double a5, const int a6)
{
  rec::begin("model::occ::addBox");
  rec::put(a0);
  rec::put(a1);
  rec::put(a2);
  rec::put(a3);
  rec::put(a4);
  rec::put(a5);
  rec::put(a6);
  rec::mayThrow();
  return rec::result<int>();
}
}
namespace gmsh::model::occ
{
int
addCylinder(const double a0, const double a1, const double a2, const double a3, const double a4, const double a5, const double a6, const int a7, const double a8)
{
  rec::begin("model::occ::addCylinder");
  rec::put(a0);
  rec::put(a1);
  rec::put(a2);
  rec::put(a3);
  rec::put(a4);
  rec::put(a5);
  rec::put(a6);
  rec::put(a7);
  rec::put(a8);
  rec::mayThrow();
  return rec::result<int>();
}
}
namespace gmsh::model::occ
{
int
addCone(const double a0, const double a1, const double a2, const double a3, const double a4, const double a5, const double a6, const double a7, const int a8, const double a9)
{
  rec::begin("model::occ::addCone");
  rec::put(a0);
  rec::put(a1);
  rec::put(a2);
  rec::put(a3);
  rec::put(a4);
  rec::put(a5);
  rec::put(a6);
  rec::put(a7);
  rec::put(a8);
  rec::put(a9);
  rec::mayThrow();
  return rec::result<int>();
}
}
namespace gmsh::model::occ
{
int
addWedge(const double a0, const double a1, const double a2, const double a3, const double a4, const double a5, const int a6, const double a7, const std::vector<double> & a8)
{
  rec::begin("model::occ::addWedge");
  rec::put(a0);
  rec::put(a1);
  rec::put(a2);
  rec::put(a3);
  rec::put(a4);
  rec::put(a5);
  rec::put(a6);
  rec::put(a7);
  rec::put(a8);
  rec::mayThrow();
  return rec::result<int>();
}
}
namespace gmsh::model::occ
{
int
addTorus(const double a0, const double a1, const double a2, const double a3, const double a4, const int a5, const double a6, const std::vector<double> & a7)
{
  rec::begin("model::occ::addTorus");
  rec::put(a0);
  rec::put(a1);
  rec::put(a2);
  rec::put(a3);
  rec::put(a4);
  rec::put(a5);
  rec::put(a6);
  rec::put(a7);
  rec::mayThrow();
  return rec::result<int>();
}
}
namespace gmsh::model::occ
{
void
addThickSolid(const int a0, const std::vector<int> & a1, const double a2, Pairs & a3, const int a4)
{
  rec::begin("model::occ::addThickSolid");
  rec::put(a0);
  rec::put(a1);
  rec::put(a2);
  rec::put(a4);
  rec::mayThrow();
  rec::make(a3, 3);
}
}
namespace gmsh::model::occ
{
void
extrude(const Pairs & a0, const double a1, const double a2, const double a3, Pairs & a4, const std::vector<int> & a5, const std::vector<double> & a6, const bool a7)
{
  rec::begin("model::occ::extrude");
  rec::put(a0);
  rec::put(a1);
  rec::put(a2);
  rec::put(a3);
  rec::put(a5);
  rec::put(a6);
  rec::put(a7);
  rec::mayThrow();
  rec::make(a4, 4);
}
}
namespace gmsh::model::occ
{
void
revolve(const Pairs & a0, const double a1, const double a2, const double a3, const double a4, const double a5, const double a6, const double a7, Pairs & a8, const std::vector<int> & a9, const std::vector<double> & a10, const bool a11)
{
  rec::begin("model::occ::revolve");
  rec::put(a0);
  rec::put(a1);
  rec::put(a2);
  rec::put(a3);
  rec::put(a4);
  rec::put(a5);
  rec::put(a6);
  rec::put(a7);
  rec::put(a9);
  rec::put(a10);
  rec::put(a11);
  rec::mayThrow();
  rec::make(a8, 8);
}
}
namespace gmsh::model::occ
{
void
addPipe(const Pairs & a0, const int a1, Pairs & a2, const std::string & a3)
{
  rec::begin("model::occ::addPipe");
  rec::put(a0);
  rec::put(a1);
  rec::put(a3);
  rec::mayThrow();
  rec::make(a2, 2);
}
}
namespace gmsh::model::occ
{
void
fillet(const std::vector<int> & a0, const std::vector<int> & a1, const std::vector<double> & a2, Pairs & a3, const bool a4)
{
  rec::begin("model::occ::fillet");
  rec::put(a0);
  rec::put(a1);
  rec::put(a2);
  rec::put(a4);
  rec::mayThrow();
  rec::make(a3, 3);
}
}
namespace gmsh::model::occ
{
void
chamfer(const std::vector<int> & a0, const std::vector<int> & a1, const std::vector<int> & a2, const std::vector<double> & a3, Pairs & a4, const bool a5)
{
  rec::begin("model::occ::chamfer");
  rec::put(a0);
  rec::put(a1);
  rec::put(a2);
  rec::put(a3);
  rec::put(a5);
  rec::mayThrow();
  rec::make(a4, 4);
}
}
namespace gmsh::model::occ
{
void
fuse(const Pairs & a0, const Pairs & a1, Pairs & a2, std::vector<Pairs> & a3, const int a4, const bool a5, const bool a6)
{
  rec::begin("model::occ::fuse");
  rec::put(a0);
  rec::put(a1);
  rec::put(a4);
  rec::put(a5);
  rec::put(a6);
  rec::mayThrow();
  rec::make(a2, 2);
  rec::make(a3, 3);
}
}
namespace gmsh::model::occ
{
void
intersect(const Pairs & a0, const Pairs & a1, Pairs & a2, std::vector<Pairs> & a3, const int a4, const bool a5, const bool a6)
{
  rec::begin("model::occ::intersect");
  rec::put(a0);
  rec::put(a1);
  rec::put(a4);
  rec::put(a5);
  rec::put(a6);
  rec::mayThrow();
  rec::make(a2, 2);
  rec::make(a3, 3);
}
}
namespace gmsh::model::occ
{
void
cut(const Pairs & a0, const Pairs & a1, Pairs & a2, std::vector<Pairs> & a3, const int a4, const bool a5, const bool a6)
{
  rec::begin("model::occ::cut");
  rec::put(a0);
  rec::put(a1);
  rec::put(a4);
  rec::put(a5);
  rec::put(a6);
  rec::mayThrow();
  rec::make(a2, 2);
  rec::make(a3, 3);
}
}
namespace gmsh::model::occ
{
void
fragment(const Pairs & a0, const Pairs & a1, Pairs & a2, std::vector<Pairs> & a3, const int a4, const bool a5, const bool a6)
{
  rec::begin("model::occ::fragment");
  rec::put(a0);
  rec::put(a1);
  rec::put(a4);
  rec::put(a5);
  rec::put(a6);
  rec::mayThrow();
  rec::make(a2, 2);
  rec::make(a3, 3);
}
}
namespace gmsh::model::occ
{
void
translate(const Pairs & a0, const double a1, const double a2, const double a3)
{
  rec::begin("model::occ::translate");
  rec::put(a0);
  rec::put(a1);
  rec::put(a2);
  rec::put(a3);
  rec::mayThrow();
}
}
namespace gmsh::model::occ
{
void
rotate(const Pairs & a0, const double a1, const double a2, const double a3, const double a4, const double a5, const double a6, const double a7)
{
  rec::begin("model::occ::rotate");
  rec::put(a0);
  rec::put(a1);
  rec::put(a2);
  rec::put(a3);
  rec::put(a4);
  rec::put(a5);
  rec::put(a6);
  rec::put(a7);
  rec::mayThrow();
}
}
namespace gmsh::model::occ
{
void
dilate(const Pairs & a0, const double a1, const double a2, const double a3, const double a4, const double a5, const double a6)
{
  rec::begin("model::occ::dilate");
  rec::put(a0);
  rec::put(a1);
  rec::put(a2);
  rec::put(a3);
  rec::put(a4);
  rec::put(a5);
  rec::put(a6);
  rec::mayThrow();
}
}
namespace gmsh::model::occ
{
void
mirror(const Pairs & a0, const double a1, const double a2, const double a3, const double a4)
{
  rec::begin("model::occ::mirror");
  rec::put(a0);
  rec::put(a1);
  rec::put(a2);
  rec::put(a3);
  rec::put(a4);
  rec::mayThrow();
}
}
namespace gmsh::model::occ
{
void
symmetrize(const Pairs & a0, const double a1, const double a2, const double a3, const double a4)
{
  rec::begin("model::occ::symmetrize");
  rec::put(a0);
  rec::put(a1);
  rec::put(a2);
  rec::put(a3);
  rec::put(a4);
  rec::mayThrow();
}
}
namespace gmsh::model::occ
{
void
affineTransform(const Pairs & a0, const std::vector<double> & a1)
{
  rec::begin("model::occ::affineTransform");
  rec::put(a0);
  rec::put(a1);
  rec::mayThrow();
}
}
namespace gmsh::model::occ
{
void
copy(const Pairs & a0, Pairs & a1)
{
  rec::begin("model::occ::copy");
  rec::put(a0);
  rec::mayThrow();
  rec::make(a1, 1);
}
}
namespace gmsh::model::occ
{
void
remove(const Pairs & a0, const bool a1)
{
  rec::begin("model::occ::remove");
  rec::put(a0);
  rec::put(a1);
  rec::mayThrow();
}
}
namespace gmsh::model::occ
{
void
removeAllDuplicates()
{
  rec::begin("model::occ::removeAllDuplicates");
  rec::mayThrow();
}
}
namespace gmsh::model::occ
{
void
healShapes(Pairs & a0, const Pairs & a1, const double a2, const bool a3, const bool a4, const bool a5, const bool a6, const bool a7)
{
  rec::begin("model::occ::healShapes");
  rec::put(a1);
  rec::put(a2);
  rec::put(a3);
  rec::put(a4);
  rec::put(a5);
  rec::put(a6);
  rec::put(a7);
  rec::mayThrow();
  rec::make(a0, 0);
}
}
namespace gmsh::model::occ
{
void
convertToNURBS(const Pairs & a0)
{
  rec::begin("model::occ::convertToNURBS");
  rec::put(a0);
  rec::mayThrow();
}
}
namespace gmsh::model::occ
{
void
importShapes(const std::string & a0, Pairs & a1, const bool a2, const std::string & a3)
{
  rec::begin("model::occ::importShapes");
  rec::put(a0);
  rec::put(a2);
  rec::put(a3);
  rec::mayThrow();
  rec::make(a1, 1);
}
}
namespace gmsh::model::occ
{
void
importShapesNativePointer(const void * a0, Pairs & a1, const bool a2)
{
  rec::begin("model::occ::importShapesNativePointer");
  rec::put(a0);
  rec::put(a2);
  rec::mayThrow();
  rec::make(a1, 1);
}
}
namespace gmsh::model::occ
{
void
getEntities(Pairs & a0, const int a1)
{
  rec::begin("model::occ::getEntities");
  rec::put(a1);
  rec::mayThrow();
  rec::make(a0, 0);
}
}
namespace gmsh::model::occ
{
void
getEntitiesInBoundingBox(const double a0, const double a1, const double a2, const double a3, const double a4, const double a5, Pairs & a6, const int a7)
{
  rec::begin("model::occ::getEntitiesInBoundingBox");
  rec::put(a0);
  rec::put(a1);
  rec::put(a2);
  rec::put(a3);
  rec::put(a4);
  rec::put(a5);
  rec::put(a7);
  rec::mayThrow();
  rec::make(a6, 6);
}
}
namespace gmsh::model::occ
{
void
getBoundingBox(const int a0, const int a1, double & a2, double & a3, double & a4, double & a5, double & a6, double & a7)
{
  rec::begin("model::occ::getBoundingBox");
  rec::put(a0);
  rec::put(a1);
  rec::mayThrow();
  rec::make(a2, 2);
  rec::make(a3, 3);
  rec::make(a4, 4);
  rec::make(a5, 5);
  rec::make(a6, 6);
  rec::make(a7, 7);
}
}
namespace gmsh::model::occ
{
void
getCurveLoops(const int a0, std::vector<int> & a1, std::vector<std::vector<int>> & a2)
{
  rec::begin("model::occ::getCurveLoops");
  rec::put(a0);
  rec::mayThrow();
  rec::make(a1, 1);
  rec::make(a2, 2);
}
}
namespace gmsh::model::occ
{
void
getSurfaceLoops(const int a0, std::vector<int> & a1, std::vector<std::vector<int>> & a2)
{
  rec::begin("model::occ::getSurfaceLoops");
  rec::put(a0);
  rec::mayThrow();
  rec::make(a1, 1);
  rec::make(a2, 2);
}
}
namespace gmsh::model::occ
{
void
getMass(const int a0, const int a1, double & a2)
{
  rec::begin("model::occ::getMass");
  rec::put(a0);
  rec::put(a1);
  rec::mayThrow();
  rec::make(a2, 2);
}
}
namespace gmsh::model::occ
{
void
getCenterOfMass(const int a0, const int a1, double & a2, double & a3, double & a4)
{
  rec::begin("model::occ::getCenterOfMass");
  rec::put(a0);
  rec::put(a1);
  rec::mayThrow();
  rec::make(a2, 2);
  rec::make(a3, 3);
  rec::make(a4, 4);
}
}
namespace gmsh::model::occ
{
void
getMatrixOfInertia(const int a0, const int a1, std::vector<double> & a2)
{
  rec::begin("model::occ::getMatrixOfInertia");
  rec::put(a0);
  rec::put(a1);
  rec::mayThrow();
  rec::make(a2, 2);
}
}
namespace gmsh::model::occ
{
int
getMaxTag(const int a0)
{
  rec::begin("model::occ::getMaxTag");
  rec::put(a0);
  rec::mayThrow();
  return rec::result<int>();
}
}
namespace gmsh::model::occ
{
void
setMaxTag(const int a0, const int a1)
{
  rec::begin("model::occ::setMaxTag");
  rec::put(a0);
  rec::put(a1);
  rec::mayThrow();
}
}
namespace gmsh::model::occ
{
void
synchronize()
{
  rec::begin("model::occ::synchronize");
  rec::mayThrow();
}
}
namespace gmsh::model::occ::mesh
{
void
setSize(const Pairs & a0, const double a1)
{
  rec::begin("model::occ::mesh::setSize");
  rec::put(a0);
  rec::put(a1);
  rec::mayThrow();
}
}
namespace gmsh::view
{
int
add(const std::string & a0, const int a1)
{
  rec::begin("view::add");
  rec::put(a0);
  rec::put(a1);
  rec::mayThrow();
  return rec::result<int>();
}
}
namespace gmsh::view
{
void
remove(const int a0)
{
  rec::begin("view::remove");
  rec::put(a0);
  rec::mayThrow();
}
}
namespace gmsh::view
{
int
getIndex(const int a0)
{
  rec::begin("view::getIndex");
  rec::put(a0);
  rec::mayThrow();
  return rec::result<int>();
}
}
namespace gmsh::view
{
void
getTags(std::vector<int> & a0)
{
  rec::begin("view::getTags");
  rec::mayThrow();
  rec::make(a0, 0);
}
}
namespace gmsh::view
{
void
addModelData(const int a0, const int a1, const std::string & a2, const std::string & a3, const std::vector<std::size_t> & a4, const std::vector<std::vector<double>> & a5, const double a6, const int a7, const int a8)
{
  rec::begin("view::addModelData");
  rec::put(a0);
  rec::put(a1);
  rec::put(a2);
  rec::put(a3);
  rec::put(a4);
  rec::put(a5);
  rec::put(a6);
  rec::put(a7);
  rec::put(a8);
  rec::mayThrow();
}
}
namespace gmsh::view
{
void
addHomogeneousModelData(const int a0, const int a1, const std::string & a2, const std::string & a3, const std::vector<std::size_t> & a4, const std::vector<double> & a5, const double a6, const int a7, const int a8)
{
  rec::begin("view::addHomogeneousModelData");
  rec::put(a0);
  rec::put(a1);
  rec::put(a2);
  rec::put(a3);
  rec::put(a4);
  rec::put(a5);
  rec::put(a6);
  rec::put(a7);
  rec::put(a8);
  rec::mayThrow();
}
}
namespace gmsh::view
{
void
getModelData(const int a0, const int a1, std::string & a2, std::vector<std::size_t> & a3, std::vector<std::vector<double>> & a4, double & a5, int & a6)
{
  rec::begin("view::getModelData");
  rec::put(a0);
  rec::put(a1);
  rec::mayThrow();
  rec::make(a2, 2);
  rec::make(a3, 3);
  rec::make(a4, 4);
  rec::make(a5, 5);
  rec::make(a6, 6);
}
}
namespace gmsh::view
{
void
getHomogeneousModelData(const int a0, const int a1, std::string & a2, std::vector<std::size_t> & a3, std::vector<double> & a4, double & a5, int & a6)
{
  rec::begin("view::getHomogeneousModelData");
  rec::put(a0);
  rec::put(a1);
  rec::mayThrow();
  rec::make(a2, 2);
  rec::make(a3, 3);
  rec::make(a4, 4);
  rec::make(a5, 5);
  rec::make(a6, 6);
}
}
namespace gmsh::view
{
void
addListData(const int a0, const std::string & a1, const int a2, const std::vector<double> & a3)
{
  rec::begin("view::addListData");
  rec::put(a0);
  rec::put(a1);
  rec::put(a2);
  rec::put(a3);
  rec::mayThrow();
}
}
namespace gmsh::view
{
void
getListData(const int a0, std::vector<std::string> & a1, std::vector<int> & a2, std::vector<std::vector<double>> & a3, const bool a4)
{
  rec::begin("view::getListData");
  rec::put(a0);
  rec::put(a4);
  rec::mayThrow();
  rec::make(a1, 1);
  rec::make(a2, 2);
  rec::make(a3, 3);
}
}
namespace gmsh::view
{
void
addListDataString(const int a0, const std::vector<double> & a1, const std::vector<std::string> & a2, const std::vector<std::string> & a3)
{
  rec::begin("view::addListDataString");
  rec::put(a0);
  rec::put(a1);
  rec::put(a2);
  rec::put(a3);
  rec::mayThrow();
}
}
namespace gmsh::view
{
void
getListDataStrings(const int a0, const int a1, std::vector<double> & a2, std::vector<std::string> & a3, std::vector<std::string> & a4)
{
  rec::begin("view::getListDataStrings");
  rec::put(a0);
  rec::put(a1);
  rec::mayThrow();
  rec::make(a2, 2);
  rec::make(a3, 3);
  rec::make(a4, 4);
}
}
namespace gmsh::view
{
void
setInterpolationMatrices(const int a0, const std::string & a1, const int a2, const std::vector<double> & a3, const std::vector<double> & a4, const int a5, const std::vector<double> & a6, const std::vector<double> & a7)
{
  rec::begin("view::setInterpolationMatrices");
  rec::put(a0);
  rec::put(a1);
  rec::put(a2);
  rec::put(a3);
  rec::put(a4);
  rec::put(a5);
  rec::put(a6);
  rec::put(a7);
  rec::mayThrow();
}
}
namespace gmsh::view
{
int
addAlias(const int a0, const bool a1, const int a2)
{
  rec::begin("view::addAlias");
  rec::put(a0);
  rec::put(a1);
  rec::put(a2);
  rec::mayThrow();
  return rec::result<int>();
}
}
namespace gmsh::view
{
void
combine(const std::string & a0, const std::string & a1, const bool a2, const bool a3)
{
  rec::begin("view::combine");
  rec::put(a0);
  rec::put(a1);
  rec::put(a2);
  rec::put(a3);
  rec::mayThrow();
}
}
namespace gmsh::view
{
void
probe(const int a0, const double a1, const double a2, const double a3, std::vector<double> & a4, double & a5, const int a6, const int a7, const bool a8, const double a9, const std::vector<double> & a10, const std::vector<double> & a11, const std::vector<double> & a12, const int a13)
{
  rec::begin("view::probe");
  rec::put(a0);
  rec::put(a1);
  rec::put(a2);
  rec::put(a3);
  rec::put(a6);
  rec::put(a7);
  rec::put(a8);
  rec::put(a9);
  rec::put(a10);
  rec::put(a11);
  rec::put(a12);
  rec::put(a13);
  rec::mayThrow();
  rec::make(a4, 4);
  rec::make(a5, 5);
}
}
namespace gmsh::view
{
void
write(const int a0, const std::string & a1, const bool a2)
{
  rec::begin("view::write");
  rec::put(a0);
  rec::put(a1);
  rec::put(a2);
  rec::mayThrow();
}
}
namespace gmsh::view
{
void
setVisibilityPerWindow(const int a0, const int a1, const int a2)
{
  rec::begin("view::setVisibilityPerWindow");
  rec::put(a0);
  rec::put(a1);
  rec::put(a2);
  rec::mayThrow();
}
}
namespace gmsh::view::option
{
void
setNumber(const int a0, const std::string & a1, const double a2)
{
  rec::begin("view::option::setNumber");
  rec::put(a0);
  rec::put(a1);
  rec::put(a2);
  rec::mayThrow();
}
}
namespace gmsh::view::option
{
void
getNumber(const int a0, const std::string & a1, double & a2)
{
  rec::begin("view::option::getNumber");
  rec::put(a0);
  rec::put(a1);
  rec::mayThrow();
  rec::make(a2, 2);
}
}
namespace gmsh::view::option
{
void
setString(const int a0, const std::string & a1, const std::string & a2)
{
  rec::begin("view::option::setString");
  rec::put(a0);
  rec::put(a1);
  rec::put(a2);
  rec::mayThrow();
}
}
namespace gmsh::view::option
{
void
getString(const int a0, const std::string & a1, std::string & a2)
{
  rec::begin("view::option::getString");
  rec::put(a0);
  rec::put(a1);
  rec::mayThrow();
  rec::make(a2, 2);
}
}
namespace gmsh::view::option
{
void
setColor(const int a0, const std::string & a1, const int a2, const int a3, const int a4, const int a5)
{
  rec::begin("view::option::setColor");
  rec::put(a0);
  rec::put(a1);
  rec::put(a2);
  rec::put(a3);
  rec::put(a4);
  rec::put(a5);
  rec::mayThrow();
}
}
namespace gmsh::view::option
{
void
getColor(const int a0, const std::string & a1, int & a2, int & a3, int & a4, int & a5)
{
  rec::begin("view::option::getColor");
  rec::put(a0);
  rec::put(a1);
  rec::mayThrow();
  rec::make(a2, 2);
  rec::make(a3, 3);
  rec::make(a4, 4);
  rec::make(a5, 5);
}
}
namespace gmsh::view::option
{
void
copy(const int a0, const int a1)
{
  rec::begin("view::option::copy");
  rec::put(a0);
  rec::put(a1);
  rec::mayThrow();
}
}
namespace gmsh::plugin
{
void
setNumber(const std::string & a0, const std::string & a1, const double a2)
{
  rec::begin("plugin::setNumber");
  rec::put(a0);
  rec::put(a1);
  rec::put(a2);
  rec::mayThrow();
}
}
namespace gmsh::plugin
{
void
setString(const std::string & a0, const std::string & a1, const std::string & a2)
{
  rec::begin("plugin::setString");
  rec::put(a0);
  rec::put(a1);
  rec::put(a2);
  rec::mayThrow();
}
}
namespace gmsh::plugin
{
int
run(const std::string & a0)
{
  rec::begin("plugin::run");
  rec::put(a0);
  rec::mayThrow();
  return rec::result<int>();
}
}
namespace gmsh::graphics
{
void
draw()
{
  rec::begin("graphics::draw");
  rec::mayThrow();
}
}
namespace gmsh::fltk
{
void
initialize()
{
  rec::begin("fltk::initialize");
  rec::mayThrow();
}
}
namespace gmsh::fltk
{
void
finalize()
{
  rec::begin("fltk::finalize");
  rec::mayThrow();
}
}
namespace gmsh::fltk
{
void
wait(const double a0)
{
  rec::begin("fltk::wait");
  rec::put(a0);
  rec::mayThrow();
}
}
namespace gmsh::fltk
{
void
update()
{
  rec::begin("fltk::update");
  rec::mayThrow();
}
}
namespace gmsh::fltk
{
void
awake(const std::string & a0)
{
  rec::begin("fltk::awake");
  rec::put(a0);
  rec::mayThrow();
}
}
namespace gmsh::fltk
{
void
lock()
{
  rec::begin("fltk::lock");
  rec::mayThrow();
}
}
namespace gmsh::fltk
{
void
unlock()
{
  rec::begin("fltk::unlock");
  rec::mayThrow();
}
}
namespace gmsh::fltk
{
void
run()
{
  rec::begin("fltk::run");
  rec::mayThrow();
}
}
namespace gmsh::fltk
{
int
isAvailable()
{
  rec::begin("fltk::isAvailable");
  rec::mayThrow();
  return rec::result<int>();
}
}
namespace gmsh::fltk
{
int
selectEntities(Pairs & a0, const int a1)
{
  rec::begin("fltk::selectEntities");
  rec::put(a1);
  rec::mayThrow();
  rec::make(a0, 0);
  return rec::result<int>();
}
}
namespace gmsh::fltk
{
int
selectElements(std::vector<std::size_t> & a0)
{
  rec::begin("fltk::selectElements");
  rec::mayThrow();
  rec::make(a0, 0);
  return rec::result<int>();
}
}
namespace gmsh::fltk
{
int
selectViews(std::vector<int> & a0)
{
  rec::begin("fltk::selectViews");
  rec::mayThrow();
  rec::make(a0, 0);
  return rec::result<int>();
}
}
namespace gmsh::fltk
{
void
splitCurrentWindow(const std::string & a0, const double a1)
{
  rec::begin("fltk::splitCurrentWindow");
  rec::put(a0);
  rec::put(a1);
  rec::mayThrow();
}
}
namespace gmsh::fltk
{
void
setCurrentWindow(const int a0)
{
  rec::begin("fltk::setCurrentWindow");
  rec::put(a0);
  rec::mayThrow();
}
}
namespace gmsh::fltk
{
void
setStatusMessage(const std::string & a0, const bool a1)
{
  rec::begin("fltk::setStatusMessage");
  rec::put(a0);
  rec::put(a1);
  rec::mayThrow();
}
}
namespace gmsh::fltk
{
void
showContextWindow(const int a0, const int a1)
{
  rec::begin("fltk::showContextWindow");
  rec::put(a0);
  rec::put(a1);
  rec::mayThrow();
}
}
namespace gmsh::fltk
{
void
openTreeItem(const std::string & a0)
{
  rec::begin("fltk::openTreeItem");
  rec::put(a0);
  rec::mayThrow();
}
}
namespace gmsh::fltk
{
void
closeTreeItem(const std::string & a0)
{
  rec::begin("fltk::closeTreeItem");
  rec::put(a0);
  rec::mayThrow();
}
}
namespace gmsh::parser
{
void
getNames(std::vector<std::string> & a0, const std::string & a1)
{
  rec::begin("parser::getNames");
  rec::put(a1);
  rec::mayThrow();
  rec::make(a0, 0);
}
}
namespace gmsh::parser
{
void
setNumber(const std::string & a0, const std::vector<double> & a1)
{
  rec::begin("parser::setNumber");
  rec::put(a0);
  rec::put(a1);
  rec::mayThrow();
}
}
namespace gmsh::parser
{
void
setString(const std::string & a0, const std::vector<std::string> & a1)
{
  rec::begin("parser::setString");
  rec::put(a0);
  rec::put(a1);
  rec::mayThrow();
}
}
namespace gmsh::parser
{
void
getNumber(const std::string & a0, std::vector<double> & a1)
{
  rec::begin("parser::getNumber");
  rec::put(a0);
  rec::mayThrow();
  rec::make(a1, 1);
}
}
namespace gmsh::parser
{
void
getString(const std::string & a0, std::vector<std::string> & a1)
{
  rec::begin("parser::getString");
  rec::put(a0);
  rec::mayThrow();
  rec::make(a1, 1);
}
}
namespace gmsh::parser
{
void
clear(const std::string & a0)
{
  rec::begin("parser::clear");
  rec::put(a0);
  rec::mayThrow();
}
}
namespace gmsh::parser
{
void
parse(const std::string & a0)
{
  rec::begin("parser::parse");
  rec::put(a0);
  rec::mayThrow();
}
}
namespace gmsh::onelab
{
void
set(const std::string & a0, const std::string & a1)
{
  rec::begin("onelab::set");
  rec::put(a0);
  rec::put(a1);
  rec::mayThrow();
}
}
namespace gmsh::onelab
{
void
get(std::string & a0, const std::string & a1, const std::string & a2)
{
  rec::begin("onelab::get");
  rec::put(a1);
  rec::put(a2);
  rec::mayThrow();
  rec::make(a0, 0);
}
}
namespace gmsh::onelab
{
void
getNames(std::vector<std::string> & a0, const std::string & a1)
{
  rec::begin("onelab::getNames");
  rec::put(a1);
  rec::mayThrow();
  rec::make(a0, 0);
}
}
namespace gmsh::onelab
{
void
setNumber(const std::string & a0, const std::vector<double> & a1)
{
  rec::begin("onelab::setNumber");
  rec::put(a0);
  rec::put(a1);
  rec::mayThrow();
}
}
namespace gmsh::onelab
{
void
setString(const std::string & a0, const std::vector<std::string> & a1)
{
  rec::begin("onelab::setString");
  rec::put(a0);
  rec::put(a1);
  rec::mayThrow();
}
}
namespace gmsh::onelab
{
void
getNumber(const std::string & a0, std::vector<double> & a1)
{
  rec::begin("onelab::getNumber");
  rec::put(a0);
  rec::mayThrow();
  rec::make(a1, 1);
}
}
namespace gmsh::onelab
{
void
getString(const std::string & a0, std::vector<std::string> & a1)
{
  rec::begin("onelab::getString");
  rec::put(a0);
  rec::mayThrow();
  rec::make(a1, 1);
}
}
namespace gmsh::onelab
{
int
getChanged(const std::string & a0)
{
  rec::begin("onelab::getChanged");
  rec::put(a0);
  rec::mayThrow();
  return rec::result<int>();
}
}
namespace gmsh::onelab
{
void
setChanged(const std::string & a0, const int a1)
{
  rec::begin("onelab::setChanged");
  rec::put(a0);
  rec::put(a1);
  rec::mayThrow();
}
}
namespace gmsh::onelab
{
void
clear(const std::string & a0)
{
  rec::begin("onelab::clear");
  rec::put(a0);
  rec::mayThrow();
}
}
namespace gmsh::onelab
{
void
run(const std::string & a0, const std::string & a1)
{
  rec::begin("onelab::run");
  rec::put(a0);
  rec::put(a1);
  rec::mayThrow();
}
}
namespace gmsh::logger
{
void
write(const std::string & a0, const std::string & a1)
{
  rec::begin("logger::write");
  rec::put(a0);
  rec::put(a1);
  rec::mayThrow();
}
}
namespace gmsh::logger
{
void
start()
{
  rec::begin("logger::start");
  rec::mayThrow();
}
}
namespace gmsh::logger
{
void
get(std::vector<std::string> & a0)
{
  rec::begin("logger::get");
  rec::mayThrow();
  rec::make(a0, 0);
}
}
namespace gmsh::logger
{
void
stop()
{
  rec::begin("logger::stop");
  rec::mayThrow();
}
}
namespace gmsh::logger
{
double
getWallTime()
{
  rec::begin("logger::getWallTime");
  rec::mayThrow();
  return rec::result<double>();
}
}
namespace gmsh::logger
{
double
getCpuTime()
{
  rec::begin("logger::getCpuTime");
  rec::mayThrow();
  return rec::result<double>();
}
}
namespace gmsh::logger
{
void
getLastError(std::string & a0)
{
  rec::begin("logger::getLastError");
  rec::mayThrow();
  rec::make(a0, 0);
}
}
namespace
{
void
call0(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<int>(s, c);
  auto a1 = gen<char **>(s, c);
  auto a2 = gen<bool>(s, c);
  auto a3 = gen<bool>(s, c);
  int const k = 4 - s.irange(0, 4);
  compare(s, c, "initialize", k, [&](bool const wrapped) {
    switch (k) {
    case 0:
      wrapped ? um2::gmsh::initialize() : ::gmsh::initialize();
      break;
    case 1:
      wrapped ? um2::gmsh::initialize(a0) : ::gmsh::initialize(a0);
      break;
    case 2:
      wrapped ? um2::gmsh::initialize(a0, a1) : ::gmsh::initialize(a0, a1);
      break;
    case 3:
      wrapped ? um2::gmsh::initialize(a0, a1, a2) : ::gmsh::initialize(a0, a1, a2);
      break;
    case 4:
      wrapped ? um2::gmsh::initialize(a0, a1, a2, a3) : ::gmsh::initialize(a0, a1, a2, a3);
      break;
    }
  });
}
void
call1(pbt::Src & s, pbt::Case & c)
{
  int const k = 0 - s.irange(0, 0);
  compare(s, c, "isInitialized", k, [&](bool const wrapped) {
    switch (k) {
    case 0:
      rec::put(wrapped ? um2::gmsh::isInitialized() : ::gmsh::isInitialized());
      break;
    }
  });
}
void
call2(pbt::Src & s, pbt::Case & c)
{
  int const k = 0 - s.irange(0, 0);
  compare(s, c, "finalize", k, [&](bool const wrapped) {
    switch (k) {
    case 0:
      wrapped ? um2::gmsh::finalize() : ::gmsh::finalize();
      break;
    }
  });
}
void
call3(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<std::string>(s, c);
  int const k = 1 - s.irange(0, 0);
  compare(s, c, "open", k, [&](bool const wrapped) {
    switch (k) {
    case 1:
      wrapped ? um2::gmsh::open(a0) : ::gmsh::open(a0);
      break;
    }
  });
}
void
call4(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<std::string>(s, c);
  int const k = 1 - s.irange(0, 0);
  compare(s, c, "merge", k, [&](bool const wrapped) {
    switch (k) {
    case 1:
      wrapped ? um2::gmsh::merge(a0) : ::gmsh::merge(a0);
      break;
    }
  });
}
void
call5(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<std::string>(s, c);
  int const k = 1 - s.irange(0, 0);
  compare(s, c, "write", k, [&](bool const wrapped) {
    switch (k) {
    case 1:
      wrapped ? um2::gmsh::write(a0) : ::gmsh::write(a0);
      break;
    }
  });
}
void
call6(pbt::Src & s, pbt::Case & c)
{
  int const k = 0 - s.irange(0, 0);
  compare(s, c, "clear", k, [&](bool const wrapped) {
    switch (k) {
    case 0:
      wrapped ? um2::gmsh::clear() : ::gmsh::clear();
      break;
    }
  });
}
void
call7(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<std::string>(s, c);
  auto a1 = gen<double>(s, c);
  int const k = 2 - s.irange(0, 0);
  compare(s, c, "option::setNumber", k, [&](bool const wrapped) {
    switch (k) {
    case 2:
      wrapped ? um2::gmsh::option::setNumber(a0, a1) : ::gmsh::option::setNumber(a0, a1);
      break;
    }
  });
}
void
call8(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<std::string>(s, c);
  double a1{};
  int const k = 2 - s.irange(0, 0);
  compare(s, c, "option::getNumber", k, [&](bool const wrapped) {
    a1 = {};
    switch (k) {
    case 2:
      wrapped ? um2::gmsh::option::getNumber(a0, a1) : ::gmsh::option::getNumber(a0, a1);
      break;
    }
    rec::put(a1);
  });
}
void
call9(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<std::string>(s, c);
  auto a1 = gen<std::string>(s, c);
  int const k = 2 - s.irange(0, 0);
  compare(s, c, "option::setString", k, [&](bool const wrapped) {
    switch (k) {
    case 2:
      wrapped ? um2::gmsh::option::setString(a0, a1) : ::gmsh::option::setString(a0, a1);
      break;
    }
  });
}
void
call10(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<std::string>(s, c);
  std::string a1{};
  int const k = 2 - s.irange(0, 0);
  compare(s, c, "option::getString", k, [&](bool const wrapped) {
    a1 = {};
    switch (k) {
    case 2:
      wrapped ? um2::gmsh::option::getString(a0, a1) : ::gmsh::option::getString(a0, a1);
      break;
    }
    rec::put(a1);
  });
}
void
call11(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<std::string>(s, c);
  auto a1 = gen<int>(s, c);
  auto a2 = gen<int>(s, c);
  auto a3 = gen<int>(s, c);
  auto a4 = gen<int>(s, c);
  int const k = 5 - s.irange(0, 1);
  compare(s, c, "option::setColor", k, [&](bool const wrapped) {
    switch (k) {
    case 4:
      wrapped ? um2::gmsh::option::setColor(a0, a1, a2, a3) : ::gmsh::option::setColor(a0, a1, a2, a3);
      break;
    case 5:
      wrapped ? um2::gmsh::option::setColor(a0, a1, a2, a3, a4) : ::gmsh::option::setColor(a0, a1, a2, a3, a4);
      break;
    }
  });
}
void
call12(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<std::string>(s, c);
  int a1{};
  int a2{};
  int a3{};
  int a4{};
  int const k = 5 - s.irange(0, 0);
  compare(s, c, "option::getColor", k, [&](bool const wrapped) {
    a1 = {};
    a2 = {};
    a3 = {};
    a4 = {};
    switch (k) {
    case 5:
      wrapped ? um2::gmsh::option::getColor(a0, a1, a2, a3, a4) : ::gmsh::option::getColor(a0, a1, a2, a3, a4);
      break;
    }
    rec::put(a1);
    rec::put(a2);
    rec::put(a3);
    rec::put(a4);
  });
}
void
call13(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<std::string>(s, c);
  int const k = 1 - s.irange(0, 0);
  compare(s, c, "model::add", k, [&](bool const wrapped) {
    switch (k) {
    case 1:
      wrapped ? um2::gmsh::model::add(a0) : ::gmsh::model::add(a0);
      break;
    }
  });
}
void
call14(pbt::Src & s, pbt::Case & c)
{
  int const k = 0 - s.irange(0, 0);
  compare(s, c, "model::remove", k, [&](bool const wrapped) {
    switch (k) {
    case 0:
      wrapped ? um2::gmsh::model::remove() : ::gmsh::model::remove();
      break;
    }
  });
}
void
call15(pbt::Src & s, pbt::Case & c)
{
  std::vector<std::string> a0{};
  int const k = 1 - s.irange(0, 0);
  compare(s, c, "model::list", k, [&](bool const wrapped) {
    a0 = {};
    switch (k) {
    case 1:
      wrapped ? um2::gmsh::model::list(a0) : ::gmsh::model::list(a0);
      break;
    }
    rec::put(a0);
  });
}
void
call16(pbt::Src & s, pbt::Case & c)
{
  std::string a0{};
  int const k = 1 - s.irange(0, 0);
  compare(s, c, "model::getCurrent", k, [&](bool const wrapped) {
    a0 = {};
    switch (k) {
    case 1:
      wrapped ? um2::gmsh::model::getCurrent(a0) : ::gmsh::model::getCurrent(a0);
      break;
    }
    rec::put(a0);
  });
}
void
call17(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<std::string>(s, c);
  int const k = 1 - s.irange(0, 0);
  compare(s, c, "model::setCurrent", k, [&](bool const wrapped) {
    switch (k) {
    case 1:
      wrapped ? um2::gmsh::model::setCurrent(a0) : ::gmsh::model::setCurrent(a0);
      break;
    }
  });
}
void
call18(pbt::Src & s, pbt::Case & c)
{
  std::string a0{};
  int const k = 1 - s.irange(0, 0);
  compare(s, c, "model::getFileName", k, [&](bool const wrapped) {
    a0 = {};
    switch (k) {
    case 1:
      wrapped ? um2::gmsh::model::getFileName(a0) : ::gmsh::model::getFileName(a0);
      break;
    }
    rec::put(a0);
  });
}
void
call19(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<std::string>(s, c);
  int const k = 1 - s.irange(0, 0);
  compare(s, c, "model::setFileName", k, [&](bool const wrapped) {
    switch (k) {
    case 1:
      wrapped ? um2::gmsh::model::setFileName(a0) : ::gmsh::model::setFileName(a0);
      break;
    }
  });
}
void
call20(pbt::Src & s, pbt::Case & c)
{
  Pairs a0{};
  auto a1 = gen<int>(s, c);
  int const k = 2 - s.irange(0, 1);
  compare(s, c, "model::getEntities", k, [&](bool const wrapped) {
    a0 = {};
    switch (k) {
    case 1:
      wrapped ? um2::gmsh::model::getEntities(a0) : ::gmsh::model::getEntities(a0);
      break;
    case 2:
      wrapped ? um2::gmsh::model::getEntities(a0, a1) : ::gmsh::model::getEntities(a0, a1);
      break;
    }
    rec::put(a0);
  });
}
void
call21(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<int>(s, c);
  auto a1 = gen<int>(s, c);
  auto a2 = gen<std::string>(s, c);
  int const k = 3 - s.irange(0, 0);
  compare(s, c, "model::setEntityName", k, [&](bool const wrapped) {
    switch (k) {
    case 3:
      wrapped ? um2::gmsh::model::setEntityName(a0, a1, a2) : ::gmsh::model::setEntityName(a0, a1, a2);
      break;
    }
  });
}
void
call22(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<int>(s, c);
  auto a1 = gen<int>(s, c);
  std::string a2{};
  int const k = 3 - s.irange(0, 0);
  compare(s, c, "model::getEntityName", k, [&](bool const wrapped) {
    a2 = {};
    switch (k) {
    case 3:
      wrapped ? um2::gmsh::model::getEntityName(a0, a1, a2) : ::gmsh::model::getEntityName(a0, a1, a2);
      break;
    }
    rec::put(a2);
  });
}
void
call23(pbt::Src & s, pbt::Case & c)
{
  Pairs a0{};
  auto a1 = gen<int>(s, c);
  int const k = 2 - s.irange(0, 1);
  compare(s, c, "model::getPhysicalGroups", k, [&](bool const wrapped) {
    a0 = {};
    switch (k) {
    case 1:
      wrapped ? um2::gmsh::model::getPhysicalGroups(a0) : ::gmsh::model::getPhysicalGroups(a0);
      break;
    case 2:
      wrapped ? um2::gmsh::model::getPhysicalGroups(a0, a1) : ::gmsh::model::getPhysicalGroups(a0, a1);
      break;
    }
    rec::put(a0);
  });
}
void
call24(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<int>(s, c);
  auto a1 = gen<int>(s, c);
  std::vector<int> a2{};
  int const k = 3 - s.irange(0, 0);
  compare(s, c, "model::getEntitiesForPhysicalGroup", k, [&](bool const wrapped) {
    a2 = {};
    switch (k) {
    case 3:
      wrapped ? um2::gmsh::model::getEntitiesForPhysicalGroup(a0, a1, a2) : ::gmsh::model::getEntitiesForPhysicalGroup(a0, a1, a2);
      break;
    }
    rec::put(a2);
  });
}
void
call25(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<int>(s, c);
  auto a1 = gen<int>(s, c);
  std::vector<int> a2{};
  int const k = 3 - s.irange(0, 0);
  compare(s, c, "model::getPhysicalGroupsForEntity", k, [&](bool const wrapped) {
    a2 = {};
    switch (k) {
    case 3:
      wrapped ? um2::gmsh::model::getPhysicalGroupsForEntity(a0, a1, a2) : ::gmsh::model::getPhysicalGroupsForEntity(a0, a1, a2);
      break;
    }
    rec::put(a2);
  });
}
void
call26(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<int>(s, c);
  auto a1 = gen<std::vector<int>>(s, c);
  auto a2 = gen<int>(s, c);
  auto a3 = gen<std::string>(s, c);
  int const k = 4 - s.irange(0, 2);
  compare(s, c, "model::addPhysicalGroup", k, [&](bool const wrapped) {
    switch (k) {
    case 2:
      rec::put(wrapped ? um2::gmsh::model::addPhysicalGroup(a0, a1) : ::gmsh::model::addPhysicalGroup(a0, a1));
      break;
    case 3:
      rec::put(wrapped ? um2::gmsh::model::addPhysicalGroup(a0, a1, a2) : ::gmsh::model::addPhysicalGroup(a0, a1, a2));
      break;
    case 4:
      rec::put(wrapped ? um2::gmsh::model::addPhysicalGroup(a0, a1, a2, a3) : ::gmsh::model::addPhysicalGroup(a0, a1, a2, a3));
      break;
    }
  });
}
void
call27(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<Pairs>(s, c);
  int const k = 1 - s.irange(0, 1);
  compare(s, c, "model::removePhysicalGroups", k, [&](bool const wrapped) {
    switch (k) {
    case 0:
      wrapped ? um2::gmsh::model::removePhysicalGroups() : ::gmsh::model::removePhysicalGroups();
      break;
    case 1:
      wrapped ? um2::gmsh::model::removePhysicalGroups(a0) : ::gmsh::model::removePhysicalGroups(a0);
      break;
    }
  });
}
void
call28(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<int>(s, c);
  auto a1 = gen<int>(s, c);
  auto a2 = gen<std::string>(s, c);
  int const k = 3 - s.irange(0, 0);
  compare(s, c, "model::setPhysicalName", k, [&](bool const wrapped) {
    switch (k) {
    case 3:
      wrapped ? um2::gmsh::model::setPhysicalName(a0, a1, a2) : ::gmsh::model::setPhysicalName(a0, a1, a2);
      break;
    }
  });
}
void
call29(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<std::string>(s, c);
  int const k = 1 - s.irange(0, 0);
  compare(s, c, "model::removePhysicalName", k, [&](bool const wrapped) {
    switch (k) {
    case 1:
      wrapped ? um2::gmsh::model::removePhysicalName(a0) : ::gmsh::model::removePhysicalName(a0);
      break;
    }
  });
}
void
call30(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<int>(s, c);
  auto a1 = gen<int>(s, c);
  std::string a2{};
  int const k = 3 - s.irange(0, 0);
  compare(s, c, "model::getPhysicalName", k, [&](bool const wrapped) {
    a2 = {};
    switch (k) {
    case 3:
      wrapped ? um2::gmsh::model::getPhysicalName(a0, a1, a2) : ::gmsh::model::getPhysicalName(a0, a1, a2);
      break;
    }
    rec::put(a2);
  });
}
void
call31(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<int>(s, c);
  auto a1 = gen<int>(s, c);
  auto a2 = gen<int>(s, c);
  int const k = 3 - s.irange(0, 0);
  compare(s, c, "model::setTag", k, [&](bool const wrapped) {
    switch (k) {
    case 3:
      wrapped ? um2::gmsh::model::setTag(a0, a1, a2) : ::gmsh::model::setTag(a0, a1, a2);
      break;
    }
  });
}
void
call32(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<Pairs>(s, c);
  Pairs a1{};
  auto a2 = gen<bool>(s, c);
  auto a3 = gen<bool>(s, c);
  auto a4 = gen<bool>(s, c);
  int const k = 5 - s.irange(0, 3);
  compare(s, c, "model::getBoundary", k, [&](bool const wrapped) {
    a1 = {};
    switch (k) {
    case 2:
      wrapped ? um2::gmsh::model::getBoundary(a0, a1) : ::gmsh::model::getBoundary(a0, a1);
      break;
    case 3:
      wrapped ? um2::gmsh::model::getBoundary(a0, a1, a2) : ::gmsh::model::getBoundary(a0, a1, a2);
      break;
    case 4:
      wrapped ? um2::gmsh::model::getBoundary(a0, a1, a2, a3) : ::gmsh::model::getBoundary(a0, a1, a2, a3);
      break;
    case 5:
      wrapped ? um2::gmsh::model::getBoundary(a0, a1, a2, a3, a4) : ::gmsh::model::getBoundary(a0, a1, a2, a3, a4);
      break;
    }
    rec::put(a1);
  });
}
void
call33(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<int>(s, c);
  auto a1 = gen<int>(s, c);
  std::vector<int> a2{};
  std::vector<int> a3{};
  int const k = 4 - s.irange(0, 0);
  compare(s, c, "model::getAdjacencies", k, [&](bool const wrapped) {
    a2 = {};
    a3 = {};
    switch (k) {
    case 4:
      wrapped ? um2::gmsh::model::getAdjacencies(a0, a1, a2, a3) : ::gmsh::model::getAdjacencies(a0, a1, a2, a3);
      break;
    }
    rec::put(a2);
    rec::put(a3);
  });
}
void
call34(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<double>(s, c);
  auto a1 = gen<double>(s, c);
  auto a2 = gen<double>(s, c);
  auto a3 = gen<double>(s, c);
  auto a4 = gen<double>(s, c);
  auto a5 = gen<double>(s, c);
  Pairs a6{};
  auto a7 = gen<int>(s, c);
  int const k = 8 - s.irange(0, 1);
  compare(s, c, "model::getEntitiesInBoundingBox", k, [&](bool const wrapped) {
    a6 = {};
    switch (k) {
    case 7:
      wrapped ? um2::gmsh::model::getEntitiesInBoundingBox(a0, a1, a2, a3, a4, a5, a6) : ::gmsh::model::getEntitiesInBoundingBox(a0, a1, a2, a3, a4, a5, a6);
      break;
    case 8:
      wrapped ? um2::gmsh::model::getEntitiesInBoundingBox(a0, a1, a2, a3, a4, a5, a6, a7) : ::gmsh::model::getEntitiesInBoundingBox(a0, a1, a2, a3, a4, a5, a6, a7);
      break;
    }
    rec::put(a6);
  });
}
void
call35(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<int>(s, c);
  auto a1 = gen<int>(s, c);
  double a2{};
  double a3{};
  double a4{};
  double a5{};
  double a6{};
  double a7{};
  int const k = 8 - s.irange(0, 0);
  compare(s, c, "model::getBoundingBox", k, [&](bool const wrapped) {
    a2 = {};
    a3 = {};
    a4 = {};
    a5 = {};
    a6 = {};
    a7 = {};
    switch (k) {
    case 8:
      wrapped ? um2::gmsh::model::getBoundingBox(a0, a1, a2, a3, a4, a5, a6, a7) : ::gmsh::model::getBoundingBox(a0, a1, a2, a3, a4, a5, a6, a7);
      break;
    }
    rec::put(a2);
    rec::put(a3);
    rec::put(a4);
    rec::put(a5);
    rec::put(a6);
    rec::put(a7);
  });
}
void
call36(pbt::Src & s, pbt::Case & c)
{
  int const k = 0 - s.irange(0, 0);
  compare(s, c, "model::getDimension", k, [&](bool const wrapped) {
    switch (k) {
    case 0:
      rec::put(wrapped ? um2::gmsh::model::getDimension() : ::gmsh::model::getDimension());
      break;
    }
  });
}
void
call37(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<int>(s, c);
  auto a1 = gen<int>(s, c);
  auto a2 = gen<std::vector<int>>(s, c);
  int const k = 3 - s.irange(0, 2);
  compare(s, c, "model::addDiscreteEntity", k, [&](bool const wrapped) {
    switch (k) {
    case 1:
      rec::put(wrapped ? um2::gmsh::model::addDiscreteEntity(a0) : ::gmsh::model::addDiscreteEntity(a0));
      break;
    case 2:
      rec::put(wrapped ? um2::gmsh::model::addDiscreteEntity(a0, a1) : ::gmsh::model::addDiscreteEntity(a0, a1));
      break;
    case 3:
      rec::put(wrapped ? um2::gmsh::model::addDiscreteEntity(a0, a1, a2) : ::gmsh::model::addDiscreteEntity(a0, a1, a2));
      break;
    }
  });
}
void
call38(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<Pairs>(s, c);
  auto a1 = gen<bool>(s, c);
  int const k = 2 - s.irange(0, 1);
  compare(s, c, "model::removeEntities", k, [&](bool const wrapped) {
    switch (k) {
    case 1:
      wrapped ? um2::gmsh::model::removeEntities(a0) : ::gmsh::model::removeEntities(a0);
      break;
    case 2:
      wrapped ? um2::gmsh::model::removeEntities(a0, a1) : ::gmsh::model::removeEntities(a0, a1);
      break;
    }
  });
}
void
call39(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<std::string>(s, c);
  int const k = 1 - s.irange(0, 0);
  compare(s, c, "model::removeEntityName", k, [&](bool const wrapped) {
    switch (k) {
    case 1:
      wrapped ? um2::gmsh::model::removeEntityName(a0) : ::gmsh::model::removeEntityName(a0);
      break;
    }
  });
}
void
call40(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<int>(s, c);
  auto a1 = gen<int>(s, c);
  std::string a2{};
  int const k = 3 - s.irange(0, 0);
  compare(s, c, "model::getType", k, [&](bool const wrapped) {
    a2 = {};
    switch (k) {
    case 3:
      wrapped ? um2::gmsh::model::getType(a0, a1, a2) : ::gmsh::model::getType(a0, a1, a2);
      break;
    }
    rec::put(a2);
  });
}
void
call41(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<int>(s, c);
  auto a1 = gen<int>(s, c);
  int a2{};
  int a3{};
  int const k = 4 - s.irange(0, 0);
  compare(s, c, "model::getParent", k, [&](bool const wrapped) {
    a2 = {};
    a3 = {};
    switch (k) {
    case 4:
      wrapped ? um2::gmsh::model::getParent(a0, a1, a2, a3) : ::gmsh::model::getParent(a0, a1, a2, a3);
      break;
    }
    rec::put(a2);
    rec::put(a3);
  });
}
void
call42(pbt::Src & s, pbt::Case & c)
{
  int const k = 0 - s.irange(0, 0);
  compare(s, c, "model::getNumberOfPartitions", k, [&](bool const wrapped) {
    switch (k) {
    case 0:
      rec::put(wrapped ? um2::gmsh::model::getNumberOfPartitions() : ::gmsh::model::getNumberOfPartitions());
      break;
    }
  });
}
void
call43(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<int>(s, c);
  auto a1 = gen<int>(s, c);
  std::vector<int> a2{};
  int const k = 3 - s.irange(0, 0);
  compare(s, c, "model::getPartitions", k, [&](bool const wrapped) {
    a2 = {};
    switch (k) {
    case 3:
      wrapped ? um2::gmsh::model::getPartitions(a0, a1, a2) : ::gmsh::model::getPartitions(a0, a1, a2);
      break;
    }
    rec::put(a2);
  });
}
void
call44(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<int>(s, c);
  auto a1 = gen<int>(s, c);
  auto a2 = gen<std::vector<double>>(s, c);
  std::vector<double> a3{};
  int const k = 4 - s.irange(0, 0);
  compare(s, c, "model::getValue", k, [&](bool const wrapped) {
    a3 = {};
    switch (k) {
    case 4:
      wrapped ? um2::gmsh::model::getValue(a0, a1, a2, a3) : ::gmsh::model::getValue(a0, a1, a2, a3);
      break;
    }
    rec::put(a3);
  });
}
void
call45(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<int>(s, c);
  auto a1 = gen<int>(s, c);
  auto a2 = gen<std::vector<double>>(s, c);
  std::vector<double> a3{};
  int const k = 4 - s.irange(0, 0);
  compare(s, c, "model::getDerivative", k, [&](bool const wrapped) {
    a3 = {};
    switch (k) {
    case 4:
      wrapped ? um2::gmsh::model::getDerivative(a0, a1, a2, a3) : ::gmsh::model::getDerivative(a0, a1, a2, a3);
      break;
    }
    rec::put(a3);
  });
}
void
call46(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<int>(s, c);
  auto a1 = gen<int>(s, c);
  auto a2 = gen<std::vector<double>>(s, c);
  std::vector<double> a3{};
  int const k = 4 - s.irange(0, 0);
  compare(s, c, "model::getSecondDerivative", k, [&](bool const wrapped) {
    a3 = {};
    switch (k) {
    case 4:
      wrapped ? um2::gmsh::model::getSecondDerivative(a0, a1, a2, a3) : ::gmsh::model::getSecondDerivative(a0, a1, a2, a3);
      break;
    }
    rec::put(a3);
  });
}
void
call47(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<int>(s, c);
  auto a1 = gen<int>(s, c);
  auto a2 = gen<std::vector<double>>(s, c);
  std::vector<double> a3{};
  int const k = 4 - s.irange(0, 0);
  compare(s, c, "model::getCurvature", k, [&](bool const wrapped) {
    a3 = {};
    switch (k) {
    case 4:
      wrapped ? um2::gmsh::model::getCurvature(a0, a1, a2, a3) : ::gmsh::model::getCurvature(a0, a1, a2, a3);
      break;
    }
    rec::put(a3);
  });
}
void
call48(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<int>(s, c);
  auto a1 = gen<std::vector<double>>(s, c);
  std::vector<double> a2{};
  std::vector<double> a3{};
  std::vector<double> a4{};
  std::vector<double> a5{};
  int const k = 6 - s.irange(0, 0);
  compare(s, c, "model::getPrincipalCurvatures", k, [&](bool const wrapped) {
    a2 = {};
    a3 = {};
    a4 = {};
    a5 = {};
    switch (k) {
    case 6:
      wrapped ? um2::gmsh::model::getPrincipalCurvatures(a0, a1, a2, a3, a4, a5) : ::gmsh::model::getPrincipalCurvatures(a0, a1, a2, a3, a4, a5);
      break;
    }
    rec::put(a2);
    rec::put(a3);
    rec::put(a4);
    rec::put(a5);
  });
}
void
call49(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<int>(s, c);
  auto a1 = gen<std::vector<double>>(s, c);
  std::vector<double> a2{};
  int const k = 3 - s.irange(0, 0);
  compare(s, c, "model::getNormal", k, [&](bool const wrapped) {
    a2 = {};
    switch (k) {
    case 3:
      wrapped ? um2::gmsh::model::getNormal(a0, a1, a2) : ::gmsh::model::getNormal(a0, a1, a2);
      break;
    }
    rec::put(a2);
  });
}
void
call50(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<int>(s, c);
  auto a1 = gen<int>(s, c);
  auto a2 = gen<std::vector<double>>(s, c);
  std::vector<double> a3{};
  int const k = 4 - s.irange(0, 0);
  compare(s, c, "model::getParametrization", k, [&](bool const wrapped) {
    a3 = {};
    switch (k) {
    case 4:
      wrapped ? um2::gmsh::model::getParametrization(a0, a1, a2, a3) : ::gmsh::model::getParametrization(a0, a1, a2, a3);
      break;
    }
    rec::put(a3);
  });
}
void
call51(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<int>(s, c);
  auto a1 = gen<int>(s, c);
  std::vector<double> a2{};
  std::vector<double> a3{};
  int const k = 4 - s.irange(0, 0);
  compare(s, c, "model::getParametrizationBounds", k, [&](bool const wrapped) {
    a2 = {};
    a3 = {};
    switch (k) {
    case 4:
      wrapped ? um2::gmsh::model::getParametrizationBounds(a0, a1, a2, a3) : ::gmsh::model::getParametrizationBounds(a0, a1, a2, a3);
      break;
    }
    rec::put(a2);
    rec::put(a3);
  });
}
void
call52(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<int>(s, c);
  auto a1 = gen<int>(s, c);
  auto a2 = gen<std::vector<double>>(s, c);
  auto a3 = gen<bool>(s, c);
  int const k = 4 - s.irange(0, 1);
  compare(s, c, "model::isInside", k, [&](bool const wrapped) {
    switch (k) {
    case 3:
      rec::put(wrapped ? um2::gmsh::model::isInside(a0, a1, a2) : ::gmsh::model::isInside(a0, a1, a2));
      break;
    case 4:
      rec::put(wrapped ? um2::gmsh::model::isInside(a0, a1, a2, a3) : ::gmsh::model::isInside(a0, a1, a2, a3));
      break;
    }
  });
}
void
call53(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<int>(s, c);
  auto a1 = gen<int>(s, c);
  auto a2 = gen<std::vector<double>>(s, c);
  std::vector<double> a3{};
  std::vector<double> a4{};
  int const k = 5 - s.irange(0, 0);
  compare(s, c, "model::getClosestPoint", k, [&](bool const wrapped) {
    a3 = {};
    a4 = {};
    switch (k) {
    case 5:
      wrapped ? um2::gmsh::model::getClosestPoint(a0, a1, a2, a3, a4) : ::gmsh::model::getClosestPoint(a0, a1, a2, a3, a4);
      break;
    }
    rec::put(a3);
    rec::put(a4);
  });
}
void
call54(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<int>(s, c);
  auto a1 = gen<int>(s, c);
  auto a2 = gen<std::vector<double>>(s, c);
  auto a3 = gen<int>(s, c);
  std::vector<double> a4{};
  auto a5 = gen<int>(s, c);
  int const k = 6 - s.irange(0, 1);
  compare(s, c, "model::reparametrizeOnSurface", k, [&](bool const wrapped) {
    a4 = {};
    switch (k) {
    case 5:
      wrapped ? um2::gmsh::model::reparametrizeOnSurface(a0, a1, a2, a3, a4) : ::gmsh::model::reparametrizeOnSurface(a0, a1, a2, a3, a4);
      break;
    case 6:
      wrapped ? um2::gmsh::model::reparametrizeOnSurface(a0, a1, a2, a3, a4, a5) : ::gmsh::model::reparametrizeOnSurface(a0, a1, a2, a3, a4, a5);
      break;
    }
    rec::put(a4);
  });
}
void
call55(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<Pairs>(s, c);
  auto a1 = gen<int>(s, c);
  auto a2 = gen<bool>(s, c);
  int const k = 3 - s.irange(0, 1);
  compare(s, c, "model::setVisibility", k, [&](bool const wrapped) {
    switch (k) {
    case 2:
      wrapped ? um2::gmsh::model::setVisibility(a0, a1) : ::gmsh::model::setVisibility(a0, a1);
      break;
    case 3:
      wrapped ? um2::gmsh::model::setVisibility(a0, a1, a2) : ::gmsh::model::setVisibility(a0, a1, a2);
      break;
    }
  });
}
void
call56(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<int>(s, c);
  auto a1 = gen<int>(s, c);
  int a2{};
  int const k = 3 - s.irange(0, 0);
  compare(s, c, "model::getVisibility", k, [&](bool const wrapped) {
    a2 = {};
    switch (k) {
    case 3:
      wrapped ? um2::gmsh::model::getVisibility(a0, a1, a2) : ::gmsh::model::getVisibility(a0, a1, a2);
      break;
    }
    rec::put(a2);
  });
}
void
call57(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<int>(s, c);
  auto a1 = gen<int>(s, c);
  int const k = 2 - s.irange(0, 1);
  compare(s, c, "model::setVisibilityPerWindow", k, [&](bool const wrapped) {
    switch (k) {
    case 1:
      wrapped ? um2::gmsh::model::setVisibilityPerWindow(a0) : ::gmsh::model::setVisibilityPerWindow(a0);
      break;
    case 2:
      wrapped ? um2::gmsh::model::setVisibilityPerWindow(a0, a1) : ::gmsh::model::setVisibilityPerWindow(a0, a1);
      break;
    }
  });
}
void
call58(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<Pairs>(s, c);
  auto a1 = gen<int>(s, c);
  auto a2 = gen<int>(s, c);
  auto a3 = gen<int>(s, c);
  auto a4 = gen<int>(s, c);
  auto a5 = gen<bool>(s, c);
  int const k = 6 - s.irange(0, 2);
  compare(s, c, "model::setColor", k, [&](bool const wrapped) {
    switch (k) {
    case 4:
      wrapped ? um2::gmsh::model::setColor(a0, a1, a2, a3) : ::gmsh::model::setColor(a0, a1, a2, a3);
      break;
    case 5:
      wrapped ? um2::gmsh::model::setColor(a0, a1, a2, a3, a4) : ::gmsh::model::setColor(a0, a1, a2, a3, a4);
      break;
    case 6:
      wrapped ? um2::gmsh::model::setColor(a0, a1, a2, a3, a4, a5) : ::gmsh::model::setColor(a0, a1, a2, a3, a4, a5);
      break;
    }
  });
}
void
call59(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<int>(s, c);
  auto a1 = gen<int>(s, c);
  int a2{};
  int a3{};
  int a4{};
  int a5{};
  int const k = 6 - s.irange(0, 0);
  compare(s, c, "model::getColor", k, [&](bool const wrapped) {
    a2 = {};
    a3 = {};
    a4 = {};
    a5 = {};
    switch (k) {
    case 6:
      wrapped ? um2::gmsh::model::getColor(a0, a1, a2, a3, a4, a5) : ::gmsh::model::getColor(a0, a1, a2, a3, a4, a5);
      break;
    }
    rec::put(a2);
    rec::put(a3);
    rec::put(a4);
    rec::put(a5);
  });
}
void
call60(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<int>(s, c);
  auto a1 = gen<double>(s, c);
  auto a2 = gen<double>(s, c);
  auto a3 = gen<double>(s, c);
  int const k = 4 - s.irange(0, 0);
  compare(s, c, "model::setCoordinates", k, [&](bool const wrapped) {
    switch (k) {
    case 4:
      wrapped ? um2::gmsh::model::setCoordinates(a0, a1, a2, a3) : ::gmsh::model::setCoordinates(a0, a1, a2, a3);
      break;
    }
  });
}
void
call61(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<int>(s, c);
  int const k = 1 - s.irange(0, 1);
  compare(s, c, "model::mesh::generate", k, [&](bool const wrapped) {
    switch (k) {
    case 0:
      wrapped ? um2::gmsh::model::mesh::generate() : ::gmsh::model::mesh::generate();
      break;
    case 1:
      wrapped ? um2::gmsh::model::mesh::generate(a0) : ::gmsh::model::mesh::generate(a0);
      break;
    }
  });
}
void
call62(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<int>(s, c);
  auto a1 = gen<std::vector<std::size_t>>(s, c);
  auto a2 = gen<std::vector<int>>(s, c);
  int const k = 3 - s.irange(0, 2);
  compare(s, c, "model::mesh::partition", k, [&](bool const wrapped) {
    switch (k) {
    case 1:
      wrapped ? um2::gmsh::model::mesh::partition(a0) : ::gmsh::model::mesh::partition(a0);
      break;
    case 2:
      wrapped ? um2::gmsh::model::mesh::partition(a0, a1) : ::gmsh::model::mesh::partition(a0, a1);
      break;
    case 3:
      wrapped ? um2::gmsh::model::mesh::partition(a0, a1, a2) : ::gmsh::model::mesh::partition(a0, a1, a2);
      break;
    }
  });
}
void
call63(pbt::Src & s, pbt::Case & c)
{
  int const k = 0 - s.irange(0, 0);
  compare(s, c, "model::mesh::unpartition", k, [&](bool const wrapped) {
    switch (k) {
    case 0:
      wrapped ? um2::gmsh::model::mesh::unpartition() : ::gmsh::model::mesh::unpartition();
      break;
    }
  });
}
void
call64(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<std::string>(s, c);
  auto a1 = gen<bool>(s, c);
  auto a2 = gen<int>(s, c);
  auto a3 = gen<Pairs>(s, c);
  int const k = 4 - s.irange(0, 4);
  compare(s, c, "model::mesh::optimize", k, [&](bool const wrapped) {
    switch (k) {
    case 0:
      wrapped ? um2::gmsh::model::mesh::optimize() : ::gmsh::model::mesh::optimize();
      break;
    case 1:
      wrapped ? um2::gmsh::model::mesh::optimize(a0) : ::gmsh::model::mesh::optimize(a0);
      break;
    case 2:
      wrapped ? um2::gmsh::model::mesh::optimize(a0, a1) : ::gmsh::model::mesh::optimize(a0, a1);
      break;
    case 3:
      wrapped ? um2::gmsh::model::mesh::optimize(a0, a1, a2) : ::gmsh::model::mesh::optimize(a0, a1, a2);
      break;
    case 4:
      wrapped ? um2::gmsh::model::mesh::optimize(a0, a1, a2, a3) : ::gmsh::model::mesh::optimize(a0, a1, a2, a3);
      break;
    }
  });
}
void
call65(pbt::Src & s, pbt::Case & c)
{
  int const k = 0 - s.irange(0, 0);
  compare(s, c, "model::mesh::recombine", k, [&](bool const wrapped) {
    switch (k) {
    case 0:
      wrapped ? um2::gmsh::model::mesh::recombine() : ::gmsh::model::mesh::recombine();
      break;
    }
  });
}
void
call66(pbt::Src & s, pbt::Case & c)
{
  int const k = 0 - s.irange(0, 0);
  compare(s, c, "model::mesh::refine", k, [&](bool const wrapped) {
    switch (k) {
    case 0:
      wrapped ? um2::gmsh::model::mesh::refine() : ::gmsh::model::mesh::refine();
      break;
    }
  });
}
void
call67(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<int>(s, c);
  int const k = 1 - s.irange(0, 0);
  compare(s, c, "model::mesh::setOrder", k, [&](bool const wrapped) {
    switch (k) {
    case 1:
      wrapped ? um2::gmsh::model::mesh::setOrder(a0) : ::gmsh::model::mesh::setOrder(a0);
      break;
    }
  });
}
void
call68(pbt::Src & s, pbt::Case & c)
{
  Pairs a0{};
  int const k = 1 - s.irange(0, 0);
  compare(s, c, "model::mesh::getLastEntityError", k, [&](bool const wrapped) {
    a0 = {};
    switch (k) {
    case 1:
      wrapped ? um2::gmsh::model::mesh::getLastEntityError(a0) : ::gmsh::model::mesh::getLastEntityError(a0);
      break;
    }
    rec::put(a0);
  });
}
void
call69(pbt::Src & s, pbt::Case & c)
{
  std::vector<std::size_t> a0{};
  int const k = 1 - s.irange(0, 0);
  compare(s, c, "model::mesh::getLastNodeError", k, [&](bool const wrapped) {
    a0 = {};
    switch (k) {
    case 1:
      wrapped ? um2::gmsh::model::mesh::getLastNodeError(a0) : ::gmsh::model::mesh::getLastNodeError(a0);
      break;
    }
    rec::put(a0);
  });
}
void
call70(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<Pairs>(s, c);
  int const k = 1 - s.irange(0, 1);
  compare(s, c, "model::mesh::clear", k, [&](bool const wrapped) {
    switch (k) {
    case 0:
      wrapped ? um2::gmsh::model::mesh::clear() : ::gmsh::model::mesh::clear();
      break;
    case 1:
      wrapped ? um2::gmsh::model::mesh::clear(a0) : ::gmsh::model::mesh::clear(a0);
      break;
    }
  });
}
void
call71(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<Pairs>(s, c);
  int const k = 1 - s.irange(0, 1);
  compare(s, c, "model::mesh::reverse", k, [&](bool const wrapped) {
    switch (k) {
    case 0:
      wrapped ? um2::gmsh::model::mesh::reverse() : ::gmsh::model::mesh::reverse();
      break;
    case 1:
      wrapped ? um2::gmsh::model::mesh::reverse(a0) : ::gmsh::model::mesh::reverse(a0);
      break;
    }
  });
}
void
call72(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<std::vector<double>>(s, c);
  auto a1 = gen<Pairs>(s, c);
  int const k = 2 - s.irange(0, 1);
  compare(s, c, "model::mesh::affineTransform", k, [&](bool const wrapped) {
    switch (k) {
    case 1:
      wrapped ? um2::gmsh::model::mesh::affineTransform(a0) : ::gmsh::model::mesh::affineTransform(a0);
      break;
    case 2:
      wrapped ? um2::gmsh::model::mesh::affineTransform(a0, a1) : ::gmsh::model::mesh::affineTransform(a0, a1);
      break;
    }
  });
}
void
call73(pbt::Src & s, pbt::Case & c)
{
  std::vector<std::size_t> a0{};
  std::vector<double> a1{};
  std::vector<double> a2{};
  auto a3 = gen<int>(s, c);
  auto a4 = gen<int>(s, c);
  auto a5 = gen<bool>(s, c);
  auto a6 = gen<bool>(s, c);
  int const k = 7 - s.irange(0, 4);
  compare(s, c, "model::mesh::getNodes", k, [&](bool const wrapped) {
    a0 = {};
    a1 = {};
    a2 = {};
    switch (k) {
    case 3:
      wrapped ? um2::gmsh::model::mesh::getNodes(a0, a1, a2) : ::gmsh::model::mesh::getNodes(a0, a1, a2);
      break;
    case 4:
      wrapped ? um2::gmsh::model::mesh::getNodes(a0, a1, a2, a3) : ::gmsh::model::mesh::getNodes(a0, a1, a2, a3);
      break;
    case 5:
      wrapped ? um2::gmsh::model::mesh::getNodes(a0, a1, a2, a3, a4) : ::gmsh::model::mesh::getNodes(a0, a1, a2, a3, a4);
      break;
    case 6:
      wrapped ? um2::gmsh::model::mesh::getNodes(a0, a1, a2, a3, a4, a5) : ::gmsh::model::mesh::getNodes(a0, a1, a2, a3, a4, a5);
      break;
    case 7:
      wrapped ? um2::gmsh::model::mesh::getNodes(a0, a1, a2, a3, a4, a5, a6) : ::gmsh::model::mesh::getNodes(a0, a1, a2, a3, a4, a5, a6);
      break;
    }
    rec::put(a0);
    rec::put(a1);
    rec::put(a2);
  });
}
void
call74(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<int>(s, c);
  std::vector<std::size_t> a1{};
  std::vector<double> a2{};
  std::vector<double> a3{};
  auto a4 = gen<int>(s, c);
  auto a5 = gen<bool>(s, c);
  int const k = 6 - s.irange(0, 2);
  compare(s, c, "model::mesh::getNodesByElementType", k, [&](bool const wrapped) {
    a1 = {};
    a2 = {};
    a3 = {};
    switch (k) {
    case 4:
      wrapped ? um2::gmsh::model::mesh::getNodesByElementType(a0, a1, a2, a3) : ::gmsh::model::mesh::getNodesByElementType(a0, a1, a2, a3);
      break;
    case 5:
      wrapped ? um2::gmsh::model::mesh::getNodesByElementType(a0, a1, a2, a3, a4) : ::gmsh::model::mesh::getNodesByElementType(a0, a1, a2, a3, a4);
      break;
    case 6:
      wrapped ? um2::gmsh::model::mesh::getNodesByElementType(a0, a1, a2, a3, a4, a5) : ::gmsh::model::mesh::getNodesByElementType(a0, a1, a2, a3, a4, a5);
      break;
    }
    rec::put(a1);
    rec::put(a2);
    rec::put(a3);
  });
}
void
call75(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<std::size_t>(s, c);
  std::vector<double> a1{};
  std::vector<double> a2{};
  int a3{};
  int a4{};
  int const k = 5 - s.irange(0, 0);
  compare(s, c, "model::mesh::getNode", k, [&](bool const wrapped) {
    a1 = {};
    a2 = {};
    a3 = {};
    a4 = {};
    switch (k) {
    case 5:
      wrapped ? um2::gmsh::model::mesh::getNode(a0, a1, a2, a3, a4) : ::gmsh::model::mesh::getNode(a0, a1, a2, a3, a4);
      break;
    }
    rec::put(a1);
    rec::put(a2);
    rec::put(a3);
    rec::put(a4);
  });
}
void
call76(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<std::size_t>(s, c);
  auto a1 = gen<std::vector<double>>(s, c);
  auto a2 = gen<std::vector<double>>(s, c);
  int const k = 3 - s.irange(0, 0);
  compare(s, c, "model::mesh::setNode", k, [&](bool const wrapped) {
    switch (k) {
    case 3:
      wrapped ? um2::gmsh::model::mesh::setNode(a0, a1, a2) : ::gmsh::model::mesh::setNode(a0, a1, a2);
      break;
    }
  });
}
void
call77(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<bool>(s, c);
  int const k = 1 - s.irange(0, 1);
  compare(s, c, "model::mesh::rebuildNodeCache", k, [&](bool const wrapped) {
    switch (k) {
    case 0:
      wrapped ? um2::gmsh::model::mesh::rebuildNodeCache() : ::gmsh::model::mesh::rebuildNodeCache();
      break;
    case 1:
      wrapped ? um2::gmsh::model::mesh::rebuildNodeCache(a0) : ::gmsh::model::mesh::rebuildNodeCache(a0);
      break;
    }
  });
}
void
call78(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<bool>(s, c);
  int const k = 1 - s.irange(0, 1);
  compare(s, c, "model::mesh::rebuildElementCache", k, [&](bool const wrapped) {
    switch (k) {
    case 0:
      wrapped ? um2::gmsh::model::mesh::rebuildElementCache() : ::gmsh::model::mesh::rebuildElementCache();
      break;
    case 1:
      wrapped ? um2::gmsh::model::mesh::rebuildElementCache(a0) : ::gmsh::model::mesh::rebuildElementCache(a0);
      break;
    }
  });
}
void
call79(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<int>(s, c);
  auto a1 = gen<int>(s, c);
  std::vector<std::size_t> a2{};
  std::vector<double> a3{};
  int const k = 4 - s.irange(0, 0);
  compare(s, c, "model::mesh::getNodesForPhysicalGroup", k, [&](bool const wrapped) {
    a2 = {};
    a3 = {};
    switch (k) {
    case 4:
      wrapped ? um2::gmsh::model::mesh::getNodesForPhysicalGroup(a0, a1, a2, a3) : ::gmsh::model::mesh::getNodesForPhysicalGroup(a0, a1, a2, a3);
      break;
    }
    rec::put(a2);
    rec::put(a3);
  });
}
void
call80(pbt::Src & s, pbt::Case & c)
{
  std::size_t a0{};
  int const k = 1 - s.irange(0, 0);
  compare(s, c, "model::mesh::getMaxNodeTag", k, [&](bool const wrapped) {
    a0 = {};
    switch (k) {
    case 1:
      wrapped ? um2::gmsh::model::mesh::getMaxNodeTag(a0) : ::gmsh::model::mesh::getMaxNodeTag(a0);
      break;
    }
    rec::put(a0);
  });
}
void
call81(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<int>(s, c);
  auto a1 = gen<int>(s, c);
  auto a2 = gen<std::vector<std::size_t>>(s, c);
  auto a3 = gen<std::vector<double>>(s, c);
  auto a4 = gen<std::vector<double>>(s, c);
  int const k = 5 - s.irange(0, 1);
  compare(s, c, "model::mesh::addNodes", k, [&](bool const wrapped) {
    switch (k) {
    case 4:
      wrapped ? um2::gmsh::model::mesh::addNodes(a0, a1, a2, a3) : ::gmsh::model::mesh::addNodes(a0, a1, a2, a3);
      break;
    case 5:
      wrapped ? um2::gmsh::model::mesh::addNodes(a0, a1, a2, a3, a4) : ::gmsh::model::mesh::addNodes(a0, a1, a2, a3, a4);
      break;
    }
  });
}
void
call82(pbt::Src & s, pbt::Case & c)
{
  int const k = 0 - s.irange(0, 0);
  compare(s, c, "model::mesh::reclassifyNodes", k, [&](bool const wrapped) {
    switch (k) {
    case 0:
      wrapped ? um2::gmsh::model::mesh::reclassifyNodes() : ::gmsh::model::mesh::reclassifyNodes();
      break;
    }
  });
}
void
call83(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<int>(s, c);
  auto a1 = gen<int>(s, c);
  int const k = 2 - s.irange(0, 2);
  compare(s, c, "model::mesh::relocateNodes", k, [&](bool const wrapped) {
    switch (k) {
    case 0:
      wrapped ? um2::gmsh::model::mesh::relocateNodes() : ::gmsh::model::mesh::relocateNodes();
      break;
    case 1:
      wrapped ? um2::gmsh::model::mesh::relocateNodes(a0) : ::gmsh::model::mesh::relocateNodes(a0);
      break;
    case 2:
      wrapped ? um2::gmsh::model::mesh::relocateNodes(a0, a1) : ::gmsh::model::mesh::relocateNodes(a0, a1);
      break;
    }
  });
}
void
call84(pbt::Src & s, pbt::Case & c)
{
  std::vector<int> a0{};
  std::vector<std::vector<std::size_t>> a1{};
  std::vector<std::vector<std::size_t>> a2{};
  auto a3 = gen<int>(s, c);
  auto a4 = gen<int>(s, c);
  int const k = 5 - s.irange(0, 2);
  compare(s, c, "model::mesh::getElements", k, [&](bool const wrapped) {
    a0 = {};
    a1 = {};
    a2 = {};
    switch (k) {
    case 3:
      wrapped ? um2::gmsh::model::mesh::getElements(a0, a1, a2) : ::gmsh::model::mesh::getElements(a0, a1, a2);
      break;
    case 4:
      wrapped ? um2::gmsh::model::mesh::getElements(a0, a1, a2, a3) : ::gmsh::model::mesh::getElements(a0, a1, a2, a3);
      break;
    case 5:
      wrapped ? um2::gmsh::model::mesh::getElements(a0, a1, a2, a3, a4) : ::gmsh::model::mesh::getElements(a0, a1, a2, a3, a4);
      break;
    }
    rec::put(a0);
    rec::put(a1);
    rec::put(a2);
  });
}
void
call85(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<std::size_t>(s, c);
  int a1{};
  std::vector<std::size_t> a2{};
  int a3{};
  int a4{};
  int const k = 5 - s.irange(0, 0);
  compare(s, c, "model::mesh::getElement", k, [&](bool const wrapped) {
    a1 = {};
    a2 = {};
    a3 = {};
    a4 = {};
    switch (k) {
    case 5:
      wrapped ? um2::gmsh::model::mesh::getElement(a0, a1, a2, a3, a4) : ::gmsh::model::mesh::getElement(a0, a1, a2, a3, a4);
      break;
    }
    rec::put(a1);
    rec::put(a2);
    rec::put(a3);
    rec::put(a4);
  });
}
void
call86(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<double>(s, c);
  auto a1 = gen<double>(s, c);
  auto a2 = gen<double>(s, c);
  std::size_t a3{};
  int a4{};
  std::vector<std::size_t> a5{};
  double a6{};
  double a7{};
  double a8{};
  auto a9 = gen<int>(s, c);
  auto a10 = gen<bool>(s, c);
  int const k = 11 - s.irange(0, 2);
  compare(s, c, "model::mesh::getElementByCoordinates", k, [&](bool const wrapped) {
    a3 = {};
    a4 = {};
    a5 = {};
    a6 = {};
    a7 = {};
    a8 = {};
    switch (k) {
    case 9:
      wrapped ? um2::gmsh::model::mesh::getElementByCoordinates(a0, a1, a2, a3, a4, a5, a6, a7, a8) : ::gmsh::model::mesh::getElementByCoordinates(a0, a1, a2, a3, a4, a5, a6, a7, a8);
      break;
    case 10:
      wrapped ? um2::gmsh::model::mesh::getElementByCoordinates(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9) : ::gmsh::model::mesh::getElementByCoordinates(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9);
      break;
    case 11:
      wrapped ? um2::gmsh::model::mesh::getElementByCoordinates(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10) : ::gmsh::model::mesh::getElementByCoordinates(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10);
      break;
    }
    rec::put(a3);
    rec::put(a4);
    rec::put(a5);
    rec::put(a6);
    rec::put(a7);
    rec::put(a8);
  });
}
void
call87(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<double>(s, c);
  auto a1 = gen<double>(s, c);
  auto a2 = gen<double>(s, c);
  std::vector<std::size_t> a3{};
  auto a4 = gen<int>(s, c);
  auto a5 = gen<bool>(s, c);
  int const k = 6 - s.irange(0, 2);
  compare(s, c, "model::mesh::getElementsByCoordinates", k, [&](bool const wrapped) {
    a3 = {};
    switch (k) {
    case 4:
      wrapped ? um2::gmsh::model::mesh::getElementsByCoordinates(a0, a1, a2, a3) : ::gmsh::model::mesh::getElementsByCoordinates(a0, a1, a2, a3);
      break;
    case 5:
      wrapped ? um2::gmsh::model::mesh::getElementsByCoordinates(a0, a1, a2, a3, a4) : ::gmsh::model::mesh::getElementsByCoordinates(a0, a1, a2, a3, a4);
      break;
    case 6:
      wrapped ? um2::gmsh::model::mesh::getElementsByCoordinates(a0, a1, a2, a3, a4, a5) : ::gmsh::model::mesh::getElementsByCoordinates(a0, a1, a2, a3, a4, a5);
      break;
    }
    rec::put(a3);
  });
}
void
call88(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<std::size_t>(s, c);
  auto a1 = gen<double>(s, c);
  auto a2 = gen<double>(s, c);
  auto a3 = gen<double>(s, c);
  double a4{};
  double a5{};
  double a6{};
  int const k = 7 - s.irange(0, 0);
  compare(s, c, "model::mesh::getLocalCoordinatesInElement", k, [&](bool const wrapped) {
    a4 = {};
    a5 = {};
    a6 = {};
    switch (k) {
    case 7:
      wrapped ? um2::gmsh::model::mesh::getLocalCoordinatesInElement(a0, a1, a2, a3, a4, a5, a6) : ::gmsh::model::mesh::getLocalCoordinatesInElement(a0, a1, a2, a3, a4, a5, a6);
      break;
    }
    rec::put(a4);
    rec::put(a5);
    rec::put(a6);
  });
}
void
call89(pbt::Src & s, pbt::Case & c)
{
  std::vector<int> a0{};
  auto a1 = gen<int>(s, c);
  auto a2 = gen<int>(s, c);
  int const k = 3 - s.irange(0, 2);
  compare(s, c, "model::mesh::getElementTypes", k, [&](bool const wrapped) {
    a0 = {};
    switch (k) {
    case 1:
      wrapped ? um2::gmsh::model::mesh::getElementTypes(a0) : ::gmsh::model::mesh::getElementTypes(a0);
      break;
    case 2:
      wrapped ? um2::gmsh::model::mesh::getElementTypes(a0, a1) : ::gmsh::model::mesh::getElementTypes(a0, a1);
      break;
    case 3:
      wrapped ? um2::gmsh::model::mesh::getElementTypes(a0, a1, a2) : ::gmsh::model::mesh::getElementTypes(a0, a1, a2);
      break;
    }
    rec::put(a0);
  });
}
void
call90(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<std::string>(s, c);
  auto a1 = gen<int>(s, c);
  auto a2 = gen<bool>(s, c);
  int const k = 3 - s.irange(0, 1);
  compare(s, c, "model::mesh::getElementType", k, [&](bool const wrapped) {
    switch (k) {
    case 2:
      rec::put(wrapped ? um2::gmsh::model::mesh::getElementType(a0, a1) : ::gmsh::model::mesh::getElementType(a0, a1));
      break;
    case 3:
      rec::put(wrapped ? um2::gmsh::model::mesh::getElementType(a0, a1, a2) : ::gmsh::model::mesh::getElementType(a0, a1, a2));
      break;
    }
  });
}
void
call91(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<int>(s, c);
  std::string a1{};
  int a2{};
  int a3{};
  int a4{};
  std::vector<double> a5{};
  int a6{};
  int const k = 7 - s.irange(0, 0);
  compare(s, c, "model::mesh::getElementProperties", k, [&](bool const wrapped) {
    a1 = {};
    a2 = {};
    a3 = {};
    a4 = {};
    a5 = {};
    a6 = {};
    switch (k) {
    case 7:
      wrapped ? um2::gmsh::model::mesh::getElementProperties(a0, a1, a2, a3, a4, a5, a6) : ::gmsh::model::mesh::getElementProperties(a0, a1, a2, a3, a4, a5, a6);
      break;
    }
    rec::put(a1);
    rec::put(a2);
    rec::put(a3);
    rec::put(a4);
    rec::put(a5);
    rec::put(a6);
  });
}
void
call92(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<int>(s, c);
  std::vector<std::size_t> a1{};
  std::vector<std::size_t> a2{};
  auto a3 = gen<int>(s, c);
  auto a4 = gen<std::size_t>(s, c);
  auto a5 = gen<std::size_t>(s, c);
  int const k = 6 - s.irange(0, 3);
  compare(s, c, "model::mesh::getElementsByType", k, [&](bool const wrapped) {
    a1 = {};
    a2 = {};
    switch (k) {
    case 3:
      wrapped ? um2::gmsh::model::mesh::getElementsByType(a0, a1, a2) : ::gmsh::model::mesh::getElementsByType(a0, a1, a2);
      break;
    case 4:
      wrapped ? um2::gmsh::model::mesh::getElementsByType(a0, a1, a2, a3) : ::gmsh::model::mesh::getElementsByType(a0, a1, a2, a3);
      break;
    case 5:
      wrapped ? um2::gmsh::model::mesh::getElementsByType(a0, a1, a2, a3, a4) : ::gmsh::model::mesh::getElementsByType(a0, a1, a2, a3, a4);
      break;
    case 6:
      wrapped ? um2::gmsh::model::mesh::getElementsByType(a0, a1, a2, a3, a4, a5) : ::gmsh::model::mesh::getElementsByType(a0, a1, a2, a3, a4, a5);
      break;
    }
    rec::put(a1);
    rec::put(a2);
  });
}
void
call93(pbt::Src & s, pbt::Case & c)
{
  std::size_t a0{};
  int const k = 1 - s.irange(0, 0);
  compare(s, c, "model::mesh::getMaxElementTag", k, [&](bool const wrapped) {
    a0 = {};
    switch (k) {
    case 1:
      wrapped ? um2::gmsh::model::mesh::getMaxElementTag(a0) : ::gmsh::model::mesh::getMaxElementTag(a0);
      break;
    }
    rec::put(a0);
  });
}
void
call94(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<int>(s, c);
  auto a1 = gen<bool>(s, c);
  auto a2 = gen<bool>(s, c);
  std::vector<std::size_t> a3{};
  std::vector<std::size_t> a4{};
  auto a5 = gen<int>(s, c);
  int const k = 6 - s.irange(0, 1);
  compare(s, c, "model::mesh::preallocateElementsByType", k, [&](bool const wrapped) {
    a3 = {};
    a4 = {};
    switch (k) {
    case 5:
      wrapped ? um2::gmsh::model::mesh::preallocateElementsByType(a0, a1, a2, a3, a4) : ::gmsh::model::mesh::preallocateElementsByType(a0, a1, a2, a3, a4);
      break;
    case 6:
      wrapped ? um2::gmsh::model::mesh::preallocateElementsByType(a0, a1, a2, a3, a4, a5) : ::gmsh::model::mesh::preallocateElementsByType(a0, a1, a2, a3, a4, a5);
      break;
    }
    rec::put(a3);
    rec::put(a4);
  });
}
void
call95(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<std::vector<std::size_t>>(s, c);
  std::vector<double> a1{};
  auto a2 = gen<std::string>(s, c);
  auto a3 = gen<std::size_t>(s, c);
  auto a4 = gen<std::size_t>(s, c);
  int const k = 5 - s.irange(0, 3);
  compare(s, c, "model::mesh::getElementQualities", k, [&](bool const wrapped) {
    a1 = {};
    switch (k) {
    case 2:
      wrapped ? um2::gmsh::model::mesh::getElementQualities(a0, a1) : ::gmsh::model::mesh::getElementQualities(a0, a1);
      break;
    case 3:
      wrapped ? um2::gmsh::model::mesh::getElementQualities(a0, a1, a2) : ::gmsh::model::mesh::getElementQualities(a0, a1, a2);
      break;
    case 4:
      wrapped ? um2::gmsh::model::mesh::getElementQualities(a0, a1, a2, a3) : ::gmsh::model::mesh::getElementQualities(a0, a1, a2, a3);
      break;
    case 5:
      wrapped ? um2::gmsh::model::mesh::getElementQualities(a0, a1, a2, a3, a4) : ::gmsh::model::mesh::getElementQualities(a0, a1, a2, a3, a4);
      break;
    }
    rec::put(a1);
  });
}
void
call96(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<int>(s, c);
  auto a1 = gen<int>(s, c);
  auto a2 = gen<std::vector<int>>(s, c);
  auto a3 = gen<std::vector<std::vector<std::size_t>>>(s, c);
  auto a4 = gen<std::vector<std::vector<std::size_t>>>(s, c);
  int const k = 5 - s.irange(0, 0);
  compare(s, c, "model::mesh::addElements", k, [&](bool const wrapped) {
    switch (k) {
    case 5:
      wrapped ? um2::gmsh::model::mesh::addElements(a0, a1, a2, a3, a4) : ::gmsh::model::mesh::addElements(a0, a1, a2, a3, a4);
      break;
    }
  });
}
void
call97(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<int>(s, c);
  auto a1 = gen<int>(s, c);
  auto a2 = gen<std::vector<std::size_t>>(s, c);
  auto a3 = gen<std::vector<std::size_t>>(s, c);
  int const k = 4 - s.irange(0, 0);
  compare(s, c, "model::mesh::addElementsByType", k, [&](bool const wrapped) {
    switch (k) {
    case 4:
      wrapped ? um2::gmsh::model::mesh::addElementsByType(a0, a1, a2, a3) : ::gmsh::model::mesh::addElementsByType(a0, a1, a2, a3);
      break;
    }
  });
}
void
call98(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<int>(s, c);
  auto a1 = gen<std::string>(s, c);
  std::vector<double> a2{};
  std::vector<double> a3{};
  int const k = 4 - s.irange(0, 0);
  compare(s, c, "model::mesh::getIntegrationPoints", k, [&](bool const wrapped) {
    a2 = {};
    a3 = {};
    switch (k) {
    case 4:
      wrapped ? um2::gmsh::model::mesh::getIntegrationPoints(a0, a1, a2, a3) : ::gmsh::model::mesh::getIntegrationPoints(a0, a1, a2, a3);
      break;
    }
    rec::put(a2);
    rec::put(a3);
  });
}
void
call99(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<int>(s, c);
  auto a1 = gen<std::vector<double>>(s, c);
  std::vector<double> a2{};
  std::vector<double> a3{};
  std::vector<double> a4{};
  auto a5 = gen<int>(s, c);
  auto a6 = gen<std::size_t>(s, c);
  auto a7 = gen<std::size_t>(s, c);
  int const k = 8 - s.irange(0, 3);
  compare(s, c, "model::mesh::getJacobians", k, [&](bool const wrapped) {
    a2 = {};
    a3 = {};
    a4 = {};
    switch (k) {
    case 5:
      wrapped ? um2::gmsh::model::mesh::getJacobians(a0, a1, a2, a3, a4) : ::gmsh::model::mesh::getJacobians(a0, a1, a2, a3, a4);
      break;
    case 6:
      wrapped ? um2::gmsh::model::mesh::getJacobians(a0, a1, a2, a3, a4, a5) : ::gmsh::model::mesh::getJacobians(a0, a1, a2, a3, a4, a5);
      break;
    case 7:
      wrapped ? um2::gmsh::model::mesh::getJacobians(a0, a1, a2, a3, a4, a5, a6) : ::gmsh::model::mesh::getJacobians(a0, a1, a2, a3, a4, a5, a6);
      break;
    case 8:
      wrapped ? um2::gmsh::model::mesh::getJacobians(a0, a1, a2, a3, a4, a5, a6, a7) : ::gmsh::model::mesh::getJacobians(a0, a1, a2, a3, a4, a5, a6, a7);
      break;
    }
    rec::put(a2);
    rec::put(a3);
    rec::put(a4);
  });
}
void
call100(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<int>(s, c);
  auto a1 = gen<int>(s, c);
  auto a2 = gen<bool>(s, c);
  auto a3 = gen<bool>(s, c);
  auto a4 = gen<bool>(s, c);
  std::vector<double> a5{};
  std::vector<double> a6{};
  std::vector<double> a7{};
  auto a8 = gen<int>(s, c);
  int const k = 9 - s.irange(0, 1);
  compare(s, c, "model::mesh::preallocateJacobians", k, [&](bool const wrapped) {
    a5 = {};
    a6 = {};
    a7 = {};
    switch (k) {
    case 8:
      wrapped ? um2::gmsh::model::mesh::preallocateJacobians(a0, a1, a2, a3, a4, a5, a6, a7) : ::gmsh::model::mesh::preallocateJacobians(a0, a1, a2, a3, a4, a5, a6, a7);
      break;
    case 9:
      wrapped ? um2::gmsh::model::mesh::preallocateJacobians(a0, a1, a2, a3, a4, a5, a6, a7, a8) : ::gmsh::model::mesh::preallocateJacobians(a0, a1, a2, a3, a4, a5, a6, a7, a8);
      break;
    }
    rec::put(a5);
    rec::put(a6);
    rec::put(a7);
  });
}
void
call101(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<std::size_t>(s, c);
  auto a1 = gen<std::vector<double>>(s, c);
  std::vector<double> a2{};
  std::vector<double> a3{};
  std::vector<double> a4{};
  int const k = 5 - s.irange(0, 0);
  compare(s, c, "model::mesh::getJacobian", k, [&](bool const wrapped) {
    a2 = {};
    a3 = {};
    a4 = {};
    switch (k) {
    case 5:
      wrapped ? um2::gmsh::model::mesh::getJacobian(a0, a1, a2, a3, a4) : ::gmsh::model::mesh::getJacobian(a0, a1, a2, a3, a4);
      break;
    }
    rec::put(a2);
    rec::put(a3);
    rec::put(a4);
  });
}
void
call102(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<int>(s, c);
  auto a1 = gen<std::vector<double>>(s, c);
  auto a2 = gen<std::string>(s, c);
  int a3{};
  std::vector<double> a4{};
  int a5{};
  auto a6 = gen<std::vector<int>>(s, c);
  int const k = 7 - s.irange(0, 1);
  compare(s, c, "model::mesh::getBasisFunctions", k, [&](bool const wrapped) {
    a3 = {};
    a4 = {};
    a5 = {};
    switch (k) {
    case 6:
      wrapped ? um2::gmsh::model::mesh::getBasisFunctions(a0, a1, a2, a3, a4, a5) : ::gmsh::model::mesh::getBasisFunctions(a0, a1, a2, a3, a4, a5);
      break;
    case 7:
      wrapped ? um2::gmsh::model::mesh::getBasisFunctions(a0, a1, a2, a3, a4, a5, a6) : ::gmsh::model::mesh::getBasisFunctions(a0, a1, a2, a3, a4, a5, a6);
      break;
    }
    rec::put(a3);
    rec::put(a4);
    rec::put(a5);
  });
}
void
call103(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<int>(s, c);
  auto a1 = gen<std::string>(s, c);
  std::vector<int> a2{};
  auto a3 = gen<int>(s, c);
  auto a4 = gen<std::size_t>(s, c);
  auto a5 = gen<std::size_t>(s, c);
  int const k = 6 - s.irange(0, 3);
  compare(s, c, "model::mesh::getBasisFunctionsOrientation", k, [&](bool const wrapped) {
    a2 = {};
    switch (k) {
    case 3:
      wrapped ? um2::gmsh::model::mesh::getBasisFunctionsOrientation(a0, a1, a2) : ::gmsh::model::mesh::getBasisFunctionsOrientation(a0, a1, a2);
      break;
    case 4:
      wrapped ? um2::gmsh::model::mesh::getBasisFunctionsOrientation(a0, a1, a2, a3) : ::gmsh::model::mesh::getBasisFunctionsOrientation(a0, a1, a2, a3);
      break;
    case 5:
      wrapped ? um2::gmsh::model::mesh::getBasisFunctionsOrientation(a0, a1, a2, a3, a4) : ::gmsh::model::mesh::getBasisFunctionsOrientation(a0, a1, a2, a3, a4);
      break;
    case 6:
      wrapped ? um2::gmsh::model::mesh::getBasisFunctionsOrientation(a0, a1, a2, a3, a4, a5) : ::gmsh::model::mesh::getBasisFunctionsOrientation(a0, a1, a2, a3, a4, a5);
      break;
    }
    rec::put(a2);
  });
}
void
call104(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<std::size_t>(s, c);
  auto a1 = gen<std::string>(s, c);
  int a2{};
  int const k = 3 - s.irange(0, 0);
  compare(s, c, "model::mesh::getBasisFunctionsOrientationForElement", k, [&](bool const wrapped) {
    a2 = {};
    switch (k) {
    case 3:
      wrapped ? um2::gmsh::model::mesh::getBasisFunctionsOrientationForElement(a0, a1, a2) : ::gmsh::model::mesh::getBasisFunctionsOrientationForElement(a0, a1, a2);
      break;
    }
    rec::put(a2);
  });
}
void
call105(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<int>(s, c);
  auto a1 = gen<std::string>(s, c);
  int const k = 2 - s.irange(0, 0);
  compare(s, c, "model::mesh::getNumberOfOrientations", k, [&](bool const wrapped) {
    switch (k) {
    case 2:
      rec::put(wrapped ? um2::gmsh::model::mesh::getNumberOfOrientations(a0, a1) : ::gmsh::model::mesh::getNumberOfOrientations(a0, a1));
      break;
    }
  });
}
void
call106(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<int>(s, c);
  std::vector<int> a1{};
  auto a2 = gen<int>(s, c);
  int const k = 3 - s.irange(0, 1);
  compare(s, c, "model::mesh::preallocateBasisFunctionsOrientation", k, [&](bool const wrapped) {
    a1 = {};
    switch (k) {
    case 2:
      wrapped ? um2::gmsh::model::mesh::preallocateBasisFunctionsOrientation(a0, a1) : ::gmsh::model::mesh::preallocateBasisFunctionsOrientation(a0, a1);
      break;
    case 3:
      wrapped ? um2::gmsh::model::mesh::preallocateBasisFunctionsOrientation(a0, a1, a2) : ::gmsh::model::mesh::preallocateBasisFunctionsOrientation(a0, a1, a2);
      break;
    }
    rec::put(a1);
  });
}
void
call107(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<std::vector<std::size_t>>(s, c);
  std::vector<std::size_t> a1{};
  std::vector<int> a2{};
  int const k = 3 - s.irange(0, 0);
  compare(s, c, "model::mesh::getEdges", k, [&](bool const wrapped) {
    a1 = {};
    a2 = {};
    switch (k) {
    case 3:
      wrapped ? um2::gmsh::model::mesh::getEdges(a0, a1, a2) : ::gmsh::model::mesh::getEdges(a0, a1, a2);
      break;
    }
    rec::put(a1);
    rec::put(a2);
  });
}
void
call108(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<int>(s, c);
  auto a1 = gen<std::vector<std::size_t>>(s, c);
  std::vector<std::size_t> a2{};
  std::vector<int> a3{};
  int const k = 4 - s.irange(0, 0);
  compare(s, c, "model::mesh::getFaces", k, [&](bool const wrapped) {
    a2 = {};
    a3 = {};
    switch (k) {
    case 4:
      wrapped ? um2::gmsh::model::mesh::getFaces(a0, a1, a2, a3) : ::gmsh::model::mesh::getFaces(a0, a1, a2, a3);
      break;
    }
    rec::put(a2);
    rec::put(a3);
  });
}
void
call109(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<Pairs>(s, c);
  int const k = 1 - s.irange(0, 1);
  compare(s, c, "model::mesh::createEdges", k, [&](bool const wrapped) {
    switch (k) {
    case 0:
      wrapped ? um2::gmsh::model::mesh::createEdges() : ::gmsh::model::mesh::createEdges();
      break;
    case 1:
      wrapped ? um2::gmsh::model::mesh::createEdges(a0) : ::gmsh::model::mesh::createEdges(a0);
      break;
    }
  });
}
void
call110(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<Pairs>(s, c);
  int const k = 1 - s.irange(0, 1);
  compare(s, c, "model::mesh::createFaces", k, [&](bool const wrapped) {
    switch (k) {
    case 0:
      wrapped ? um2::gmsh::model::mesh::createFaces() : ::gmsh::model::mesh::createFaces();
      break;
    case 1:
      wrapped ? um2::gmsh::model::mesh::createFaces(a0) : ::gmsh::model::mesh::createFaces(a0);
      break;
    }
  });
}
void
call111(pbt::Src & s, pbt::Case & c)
{
  std::vector<std::size_t> a0{};
  std::vector<std::size_t> a1{};
  int const k = 2 - s.irange(0, 0);
  compare(s, c, "model::mesh::getAllEdges", k, [&](bool const wrapped) {
    a0 = {};
    a1 = {};
    switch (k) {
    case 2:
      wrapped ? um2::gmsh::model::mesh::getAllEdges(a0, a1) : ::gmsh::model::mesh::getAllEdges(a0, a1);
      break;
    }
    rec::put(a0);
    rec::put(a1);
  });
}
void
call112(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<int>(s, c);
  std::vector<std::size_t> a1{};
  std::vector<std::size_t> a2{};
  int const k = 3 - s.irange(0, 0);
  compare(s, c, "model::mesh::getAllFaces", k, [&](bool const wrapped) {
    a1 = {};
    a2 = {};
    switch (k) {
    case 3:
      wrapped ? um2::gmsh::model::mesh::getAllFaces(a0, a1, a2) : ::gmsh::model::mesh::getAllFaces(a0, a1, a2);
      break;
    }
    rec::put(a1);
    rec::put(a2);
  });
}
void
call113(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<std::vector<std::size_t>>(s, c);
  auto a1 = gen<std::vector<std::size_t>>(s, c);
  int const k = 2 - s.irange(0, 0);
  compare(s, c, "model::mesh::addEdges", k, [&](bool const wrapped) {
    switch (k) {
    case 2:
      wrapped ? um2::gmsh::model::mesh::addEdges(a0, a1) : ::gmsh::model::mesh::addEdges(a0, a1);
      break;
    }
  });
}
void
call114(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<int>(s, c);
  auto a1 = gen<std::vector<std::size_t>>(s, c);
  auto a2 = gen<std::vector<std::size_t>>(s, c);
  int const k = 3 - s.irange(0, 0);
  compare(s, c, "model::mesh::addFaces", k, [&](bool const wrapped) {
    switch (k) {
    case 3:
      wrapped ? um2::gmsh::model::mesh::addFaces(a0, a1, a2) : ::gmsh::model::mesh::addFaces(a0, a1, a2);
      break;
    }
  });
}
void
call115(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<int>(s, c);
  auto a1 = gen<std::string>(s, c);
  std::vector<int> a2{};
  std::vector<std::size_t> a3{};
  std::vector<double> a4{};
  auto a5 = gen<int>(s, c);
  auto a6 = gen<bool>(s, c);
  int const k = 7 - s.irange(0, 2);
  compare(s, c, "model::mesh::getKeys", k, [&](bool const wrapped) {
    a2 = {};
    a3 = {};
    a4 = {};
    switch (k) {
    case 5:
      wrapped ? um2::gmsh::model::mesh::getKeys(a0, a1, a2, a3, a4) : ::gmsh::model::mesh::getKeys(a0, a1, a2, a3, a4);
      break;
    case 6:
      wrapped ? um2::gmsh::model::mesh::getKeys(a0, a1, a2, a3, a4, a5) : ::gmsh::model::mesh::getKeys(a0, a1, a2, a3, a4, a5);
      break;
    case 7:
      wrapped ? um2::gmsh::model::mesh::getKeys(a0, a1, a2, a3, a4, a5, a6) : ::gmsh::model::mesh::getKeys(a0, a1, a2, a3, a4, a5, a6);
      break;
    }
    rec::put(a2);
    rec::put(a3);
    rec::put(a4);
  });
}
void
call116(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<std::size_t>(s, c);
  auto a1 = gen<std::string>(s, c);
  std::vector<int> a2{};
  std::vector<std::size_t> a3{};
  std::vector<double> a4{};
  auto a5 = gen<bool>(s, c);
  int const k = 6 - s.irange(0, 1);
  compare(s, c, "model::mesh::getKeysForElement", k, [&](bool const wrapped) {
    a2 = {};
    a3 = {};
    a4 = {};
    switch (k) {
    case 5:
      wrapped ? um2::gmsh::model::mesh::getKeysForElement(a0, a1, a2, a3, a4) : ::gmsh::model::mesh::getKeysForElement(a0, a1, a2, a3, a4);
      break;
    case 6:
      wrapped ? um2::gmsh::model::mesh::getKeysForElement(a0, a1, a2, a3, a4, a5) : ::gmsh::model::mesh::getKeysForElement(a0, a1, a2, a3, a4, a5);
      break;
    }
    rec::put(a2);
    rec::put(a3);
    rec::put(a4);
  });
}
void
call117(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<int>(s, c);
  auto a1 = gen<std::string>(s, c);
  int const k = 2 - s.irange(0, 0);
  compare(s, c, "model::mesh::getNumberOfKeys", k, [&](bool const wrapped) {
    switch (k) {
    case 2:
      rec::put(wrapped ? um2::gmsh::model::mesh::getNumberOfKeys(a0, a1) : ::gmsh::model::mesh::getNumberOfKeys(a0, a1));
      break;
    }
  });
}
void
call118(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<std::vector<int>>(s, c);
  auto a1 = gen<std::vector<std::size_t>>(s, c);
  auto a2 = gen<int>(s, c);
  auto a3 = gen<std::string>(s, c);
  Pairs a4{};
  int const k = 5 - s.irange(0, 0);
  compare(s, c, "model::mesh::getKeysInformation", k, [&](bool const wrapped) {
    a4 = {};
    switch (k) {
    case 5:
      wrapped ? um2::gmsh::model::mesh::getKeysInformation(a0, a1, a2, a3, a4) : ::gmsh::model::mesh::getKeysInformation(a0, a1, a2, a3, a4);
      break;
    }
    rec::put(a4);
  });
}
void
call119(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<int>(s, c);
  auto a1 = gen<int>(s, c);
  auto a2 = gen<bool>(s, c);
  auto a3 = gen<bool>(s, c);
  std::vector<double> a4{};
  auto a5 = gen<std::size_t>(s, c);
  auto a6 = gen<std::size_t>(s, c);
  int const k = 7 - s.irange(0, 2);
  compare(s, c, "model::mesh::getBarycenters", k, [&](bool const wrapped) {
    a4 = {};
    switch (k) {
    case 5:
      wrapped ? um2::gmsh::model::mesh::getBarycenters(a0, a1, a2, a3, a4) : ::gmsh::model::mesh::getBarycenters(a0, a1, a2, a3, a4);
      break;
    case 6:
      wrapped ? um2::gmsh::model::mesh::getBarycenters(a0, a1, a2, a3, a4, a5) : ::gmsh::model::mesh::getBarycenters(a0, a1, a2, a3, a4, a5);
      break;
    case 7:
      wrapped ? um2::gmsh::model::mesh::getBarycenters(a0, a1, a2, a3, a4, a5, a6) : ::gmsh::model::mesh::getBarycenters(a0, a1, a2, a3, a4, a5, a6);
      break;
    }
    rec::put(a4);
  });
}
void
call120(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<int>(s, c);
  std::vector<double> a1{};
  auto a2 = gen<int>(s, c);
  int const k = 3 - s.irange(0, 1);
  compare(s, c, "model::mesh::preallocateBarycenters", k, [&](bool const wrapped) {
    a1 = {};
    switch (k) {
    case 2:
      wrapped ? um2::gmsh::model::mesh::preallocateBarycenters(a0, a1) : ::gmsh::model::mesh::preallocateBarycenters(a0, a1);
      break;
    case 3:
      wrapped ? um2::gmsh::model::mesh::preallocateBarycenters(a0, a1, a2) : ::gmsh::model::mesh::preallocateBarycenters(a0, a1, a2);
      break;
    }
    rec::put(a1);
  });
}
void
call121(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<int>(s, c);
  std::vector<std::size_t> a1{};
  auto a2 = gen<int>(s, c);
  auto a3 = gen<bool>(s, c);
  auto a4 = gen<std::size_t>(s, c);
  auto a5 = gen<std::size_t>(s, c);
  int const k = 6 - s.irange(0, 4);
  compare(s, c, "model::mesh::getElementEdgeNodes", k, [&](bool const wrapped) {
    a1 = {};
    switch (k) {
    case 2:
      wrapped ? um2::gmsh::model::mesh::getElementEdgeNodes(a0, a1) : ::gmsh::model::mesh::getElementEdgeNodes(a0, a1);
      break;
    case 3:
      wrapped ? um2::gmsh::model::mesh::getElementEdgeNodes(a0, a1, a2) : ::gmsh::model::mesh::getElementEdgeNodes(a0, a1, a2);
      break;
    case 4:
      wrapped ? um2::gmsh::model::mesh::getElementEdgeNodes(a0, a1, a2, a3) : ::gmsh::model::mesh::getElementEdgeNodes(a0, a1, a2, a3);
      break;
    case 5:
      wrapped ? um2::gmsh::model::mesh::getElementEdgeNodes(a0, a1, a2, a3, a4) : ::gmsh::model::mesh::getElementEdgeNodes(a0, a1, a2, a3, a4);
      break;
    case 6:
      wrapped ? um2::gmsh::model::mesh::getElementEdgeNodes(a0, a1, a2, a3, a4, a5) : ::gmsh::model::mesh::getElementEdgeNodes(a0, a1, a2, a3, a4, a5);
      break;
    }
    rec::put(a1);
  });
}
void
call122(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<int>(s, c);
  auto a1 = gen<int>(s, c);
  std::vector<std::size_t> a2{};
  auto a3 = gen<int>(s, c);
  auto a4 = gen<bool>(s, c);
  auto a5 = gen<std::size_t>(s, c);
  auto a6 = gen<std::size_t>(s, c);
  int const k = 7 - s.irange(0, 4);
  compare(s, c, "model::mesh::getElementFaceNodes", k, [&](bool const wrapped) {
    a2 = {};
    switch (k) {
    case 3:
      wrapped ? um2::gmsh::model::mesh::getElementFaceNodes(a0, a1, a2) : ::gmsh::model::mesh::getElementFaceNodes(a0, a1, a2);
      break;
    case 4:
      wrapped ? um2::gmsh::model::mesh::getElementFaceNodes(a0, a1, a2, a3) : ::gmsh::model::mesh::getElementFaceNodes(a0, a1, a2, a3);
      break;
    case 5:
      wrapped ? um2::gmsh::model::mesh::getElementFaceNodes(a0, a1, a2, a3, a4) : ::gmsh::model::mesh::getElementFaceNodes(a0, a1, a2, a3, a4);
      break;
    case 6:
      wrapped ? um2::gmsh::model::mesh::getElementFaceNodes(a0, a1, a2, a3, a4, a5) : ::gmsh::model::mesh::getElementFaceNodes(a0, a1, a2, a3, a4, a5);
      break;
    case 7:
      wrapped ? um2::gmsh::model::mesh::getElementFaceNodes(a0, a1, a2, a3, a4, a5, a6) : ::gmsh::model::mesh::getElementFaceNodes(a0, a1, a2, a3, a4, a5, a6);
      break;
    }
    rec::put(a2);
  });
}
void
call123(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<int>(s, c);
  auto a1 = gen<int>(s, c);
  std::vector<std::size_t> a2{};
  std::vector<int> a3{};
  int const k = 4 - s.irange(0, 0);
  compare(s, c, "model::mesh::getGhostElements", k, [&](bool const wrapped) {
    a2 = {};
    a3 = {};
    switch (k) {
    case 4:
      wrapped ? um2::gmsh::model::mesh::getGhostElements(a0, a1, a2, a3) : ::gmsh::model::mesh::getGhostElements(a0, a1, a2, a3);
      break;
    }
    rec::put(a2);
    rec::put(a3);
  });
}
void
call124(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<Pairs>(s, c);
  auto a1 = gen<double>(s, c);
  int const k = 2 - s.irange(0, 0);
  compare(s, c, "model::mesh::setSize", k, [&](bool const wrapped) {
    switch (k) {
    case 2:
      wrapped ? um2::gmsh::model::mesh::setSize(a0, a1) : ::gmsh::model::mesh::setSize(a0, a1);
      break;
    }
  });
}
void
call125(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<Pairs>(s, c);
  std::vector<double> a1{};
  int const k = 2 - s.irange(0, 0);
  compare(s, c, "model::mesh::getSizes", k, [&](bool const wrapped) {
    a1 = {};
    switch (k) {
    case 2:
      wrapped ? um2::gmsh::model::mesh::getSizes(a0, a1) : ::gmsh::model::mesh::getSizes(a0, a1);
      break;
    }
    rec::put(a1);
  });
}
void
call126(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<int>(s, c);
  auto a1 = gen<int>(s, c);
  auto a2 = gen<std::vector<double>>(s, c);
  auto a3 = gen<std::vector<double>>(s, c);
  int const k = 4 - s.irange(0, 0);
  compare(s, c, "model::mesh::setSizeAtParametricPoints", k, [&](bool const wrapped) {
    switch (k) {
    case 4:
      wrapped ? um2::gmsh::model::mesh::setSizeAtParametricPoints(a0, a1, a2, a3) : ::gmsh::model::mesh::setSizeAtParametricPoints(a0, a1, a2, a3);
      break;
    }
  });
}
void
call127(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<std::function<double(int, int, double, double, double, double)>>(s, c);
  int const k = 1 - s.irange(0, 0);
  compare(s, c, "model::mesh::setSizeCallback", k, [&](bool const wrapped) {
    switch (k) {
    case 1:
      wrapped ? um2::gmsh::model::mesh::setSizeCallback(a0) : ::gmsh::model::mesh::setSizeCallback(a0);
      break;
    }
  });
}
void
call128(pbt::Src & s, pbt::Case & c)
{
  int const k = 0 - s.irange(0, 0);
  compare(s, c, "model::mesh::removeSizeCallback", k, [&](bool const wrapped) {
    switch (k) {
    case 0:
      wrapped ? um2::gmsh::model::mesh::removeSizeCallback() : ::gmsh::model::mesh::removeSizeCallback();
      break;
    }
  });
}
void
call129(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<int>(s, c);
  auto a1 = gen<int>(s, c);
  auto a2 = gen<std::string>(s, c);
  auto a3 = gen<double>(s, c);
  int const k = 4 - s.irange(0, 2);
  compare(s, c, "model::mesh::setTransfiniteCurve", k, [&](bool const wrapped) {
    switch (k) {
    case 2:
      wrapped ? um2::gmsh::model::mesh::setTransfiniteCurve(a0, a1) : ::gmsh::model::mesh::setTransfiniteCurve(a0, a1);
      break;
    case 3:
      wrapped ? um2::gmsh::model::mesh::setTransfiniteCurve(a0, a1, a2) : ::gmsh::model::mesh::setTransfiniteCurve(a0, a1, a2);
      break;
    case 4:
      wrapped ? um2::gmsh::model::mesh::setTransfiniteCurve(a0, a1, a2, a3) : ::gmsh::model::mesh::setTransfiniteCurve(a0, a1, a2, a3);
      break;
    }
  });
}
void
call130(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<int>(s, c);
  auto a1 = gen<std::string>(s, c);
  auto a2 = gen<std::vector<int>>(s, c);
  int const k = 3 - s.irange(0, 2);
  compare(s, c, "model::mesh::setTransfiniteSurface", k, [&](bool const wrapped) {
    switch (k) {
    case 1:
      wrapped ? um2::gmsh::model::mesh::setTransfiniteSurface(a0) : ::gmsh::model::mesh::setTransfiniteSurface(a0);
      break;
    case 2:
      wrapped ? um2::gmsh::model::mesh::setTransfiniteSurface(a0, a1) : ::gmsh::model::mesh::setTransfiniteSurface(a0, a1);
      break;
    case 3:
      wrapped ? um2::gmsh::model::mesh::setTransfiniteSurface(a0, a1, a2) : ::gmsh::model::mesh::setTransfiniteSurface(a0, a1, a2);
      break;
    }
  });
}
void
call131(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<int>(s, c);
  auto a1 = gen<std::vector<int>>(s, c);
  int const k = 2 - s.irange(0, 1);
  compare(s, c, "model::mesh::setTransfiniteVolume", k, [&](bool const wrapped) {
    switch (k) {
    case 1:
      wrapped ? um2::gmsh::model::mesh::setTransfiniteVolume(a0) : ::gmsh::model::mesh::setTransfiniteVolume(a0);
      break;
    case 2:
      wrapped ? um2::gmsh::model::mesh::setTransfiniteVolume(a0, a1) : ::gmsh::model::mesh::setTransfiniteVolume(a0, a1);
      break;
    }
  });
}
void
call132(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<Pairs>(s, c);
  auto a1 = gen<double>(s, c);
  auto a2 = gen<bool>(s, c);
  int const k = 3 - s.irange(0, 3);
  compare(s, c, "model::mesh::setTransfiniteAutomatic", k, [&](bool const wrapped) {
    switch (k) {
    case 0:
      wrapped ? um2::gmsh::model::mesh::setTransfiniteAutomatic() : ::gmsh::model::mesh::setTransfiniteAutomatic();
      break;
    case 1:
      wrapped ? um2::gmsh::model::mesh::setTransfiniteAutomatic(a0) : ::gmsh::model::mesh::setTransfiniteAutomatic(a0);
      break;
    case 2:
      wrapped ? um2::gmsh::model::mesh::setTransfiniteAutomatic(a0, a1) : ::gmsh::model::mesh::setTransfiniteAutomatic(a0, a1);
      break;
    case 3:
      wrapped ? um2::gmsh::model::mesh::setTransfiniteAutomatic(a0, a1, a2) : ::gmsh::model::mesh::setTransfiniteAutomatic(a0, a1, a2);
      break;
    }
  });
}
void
call133(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<int>(s, c);
  auto a1 = gen<int>(s, c);
  auto a2 = gen<double>(s, c);
  int const k = 3 - s.irange(0, 1);
  compare(s, c, "model::mesh::setRecombine", k, [&](bool const wrapped) {
    switch (k) {
    case 2:
      wrapped ? um2::gmsh::model::mesh::setRecombine(a0, a1) : ::gmsh::model::mesh::setRecombine(a0, a1);
      break;
    case 3:
      wrapped ? um2::gmsh::model::mesh::setRecombine(a0, a1, a2) : ::gmsh::model::mesh::setRecombine(a0, a1, a2);
      break;
    }
  });
}
void
call134(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<int>(s, c);
  auto a1 = gen<int>(s, c);
  auto a2 = gen<int>(s, c);
  int const k = 3 - s.irange(0, 0);
  compare(s, c, "model::mesh::setSmoothing", k, [&](bool const wrapped) {
    switch (k) {
    case 3:
      wrapped ? um2::gmsh::model::mesh::setSmoothing(a0, a1, a2) : ::gmsh::model::mesh::setSmoothing(a0, a1, a2);
      break;
    }
  });
}
void
call135(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<int>(s, c);
  auto a1 = gen<int>(s, c);
  auto a2 = gen<bool>(s, c);
  int const k = 3 - s.irange(0, 1);
  compare(s, c, "model::mesh::setReverse", k, [&](bool const wrapped) {
    switch (k) {
    case 2:
      wrapped ? um2::gmsh::model::mesh::setReverse(a0, a1) : ::gmsh::model::mesh::setReverse(a0, a1);
      break;
    case 3:
      wrapped ? um2::gmsh::model::mesh::setReverse(a0, a1, a2) : ::gmsh::model::mesh::setReverse(a0, a1, a2);
      break;
    }
  });
}
void
call136(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<int>(s, c);
  auto a1 = gen<int>(s, c);
  auto a2 = gen<int>(s, c);
  int const k = 3 - s.irange(0, 0);
  compare(s, c, "model::mesh::setAlgorithm", k, [&](bool const wrapped) {
    switch (k) {
    case 3:
      wrapped ? um2::gmsh::model::mesh::setAlgorithm(a0, a1, a2) : ::gmsh::model::mesh::setAlgorithm(a0, a1, a2);
      break;
    }
  });
}
void
call137(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<int>(s, c);
  auto a1 = gen<int>(s, c);
  auto a2 = gen<int>(s, c);
  int const k = 3 - s.irange(0, 0);
  compare(s, c, "model::mesh::setSizeFromBoundary", k, [&](bool const wrapped) {
    switch (k) {
    case 3:
      wrapped ? um2::gmsh::model::mesh::setSizeFromBoundary(a0, a1, a2) : ::gmsh::model::mesh::setSizeFromBoundary(a0, a1, a2);
      break;
    }
  });
}
void
call138(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<int>(s, c);
  auto a1 = gen<std::vector<int>>(s, c);
  int const k = 2 - s.irange(0, 0);
  compare(s, c, "model::mesh::setCompound", k, [&](bool const wrapped) {
    switch (k) {
    case 2:
      wrapped ? um2::gmsh::model::mesh::setCompound(a0, a1) : ::gmsh::model::mesh::setCompound(a0, a1);
      break;
    }
  });
}
void
call139(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<int>(s, c);
  int const k = 1 - s.irange(0, 0);
  compare(s, c, "model::mesh::setOutwardOrientation", k, [&](bool const wrapped) {
    switch (k) {
    case 1:
      wrapped ? um2::gmsh::model::mesh::setOutwardOrientation(a0) : ::gmsh::model::mesh::setOutwardOrientation(a0);
      break;
    }
  });
}
void
call140(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<Pairs>(s, c);
  int const k = 1 - s.irange(0, 1);
  compare(s, c, "model::mesh::removeConstraints", k, [&](bool const wrapped) {
    switch (k) {
    case 0:
      wrapped ? um2::gmsh::model::mesh::removeConstraints() : ::gmsh::model::mesh::removeConstraints();
      break;
    case 1:
      wrapped ? um2::gmsh::model::mesh::removeConstraints(a0) : ::gmsh::model::mesh::removeConstraints(a0);
      break;
    }
  });
}
void
call141(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<int>(s, c);
  auto a1 = gen<std::vector<int>>(s, c);
  auto a2 = gen<int>(s, c);
  auto a3 = gen<int>(s, c);
  int const k = 4 - s.irange(0, 0);
  compare(s, c, "model::mesh::embed", k, [&](bool const wrapped) {
    switch (k) {
    case 4:
      wrapped ? um2::gmsh::model::mesh::embed(a0, a1, a2, a3) : ::gmsh::model::mesh::embed(a0, a1, a2, a3);
      break;
    }
  });
}
void
call142(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<Pairs>(s, c);
  auto a1 = gen<int>(s, c);
  int const k = 2 - s.irange(0, 1);
  compare(s, c, "model::mesh::removeEmbedded", k, [&](bool const wrapped) {
    switch (k) {
    case 1:
      wrapped ? um2::gmsh::model::mesh::removeEmbedded(a0) : ::gmsh::model::mesh::removeEmbedded(a0);
      break;
    case 2:
      wrapped ? um2::gmsh::model::mesh::removeEmbedded(a0, a1) : ::gmsh::model::mesh::removeEmbedded(a0, a1);
      break;
    }
  });
}
void
call143(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<int>(s, c);
  auto a1 = gen<int>(s, c);
  Pairs a2{};
  int const k = 3 - s.irange(0, 0);
  compare(s, c, "model::mesh::getEmbedded", k, [&](bool const wrapped) {
    a2 = {};
    switch (k) {
    case 3:
      wrapped ? um2::gmsh::model::mesh::getEmbedded(a0, a1, a2) : ::gmsh::model::mesh::getEmbedded(a0, a1, a2);
      break;
    }
    rec::put(a2);
  });
}
void
call144(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<int>(s, c);
  auto a1 = gen<int>(s, c);
  auto a2 = gen<std::vector<std::size_t>>(s, c);
  int const k = 3 - s.irange(0, 0);
  compare(s, c, "model::mesh::reorderElements", k, [&](bool const wrapped) {
    switch (k) {
    case 3:
      wrapped ? um2::gmsh::model::mesh::reorderElements(a0, a1, a2) : ::gmsh::model::mesh::reorderElements(a0, a1, a2);
      break;
    }
  });
}
void
call145(pbt::Src & s, pbt::Case & c)
{
  int const k = 0 - s.irange(0, 0);
  compare(s, c, "model::mesh::renumberNodes", k, [&](bool const wrapped) {
    switch (k) {
    case 0:
      wrapped ? um2::gmsh::model::mesh::renumberNodes() : ::gmsh::model::mesh::renumberNodes();
      break;
    }
  });
}
void
call146(pbt::Src & s, pbt::Case & c)
{
  int const k = 0 - s.irange(0, 0);
  compare(s, c, "model::mesh::renumberElements", k, [&](bool const wrapped) {
    switch (k) {
    case 0:
      wrapped ? um2::gmsh::model::mesh::renumberElements() : ::gmsh::model::mesh::renumberElements();
      break;
    }
  });
}
void
call147(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<int>(s, c);
  auto a1 = gen<std::vector<int>>(s, c);
  auto a2 = gen<std::vector<int>>(s, c);
  auto a3 = gen<std::vector<double>>(s, c);
  int const k = 4 - s.irange(0, 0);
  compare(s, c, "model::mesh::setPeriodic", k, [&](bool const wrapped) {
    switch (k) {
    case 4:
      wrapped ? um2::gmsh::model::mesh::setPeriodic(a0, a1, a2, a3) : ::gmsh::model::mesh::setPeriodic(a0, a1, a2, a3);
      break;
    }
  });
}
void
call148(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<int>(s, c);
  auto a1 = gen<std::vector<int>>(s, c);
  std::vector<int> a2{};
  int const k = 3 - s.irange(0, 0);
  compare(s, c, "model::mesh::getPeriodic", k, [&](bool const wrapped) {
    a2 = {};
    switch (k) {
    case 3:
      wrapped ? um2::gmsh::model::mesh::getPeriodic(a0, a1, a2) : ::gmsh::model::mesh::getPeriodic(a0, a1, a2);
      break;
    }
    rec::put(a2);
  });
}
void
call149(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<int>(s, c);
  auto a1 = gen<int>(s, c);
  int a2{};
  std::vector<std::size_t> a3{};
  std::vector<std::size_t> a4{};
  std::vector<double> a5{};
  auto a6 = gen<bool>(s, c);
  int const k = 7 - s.irange(0, 1);
  compare(s, c, "model::mesh::getPeriodicNodes", k, [&](bool const wrapped) {
    a2 = {};
    a3 = {};
    a4 = {};
    a5 = {};
    switch (k) {
    case 6:
      wrapped ? um2::gmsh::model::mesh::getPeriodicNodes(a0, a1, a2, a3, a4, a5) : ::gmsh::model::mesh::getPeriodicNodes(a0, a1, a2, a3, a4, a5);
      break;
    case 7:
      wrapped ? um2::gmsh::model::mesh::getPeriodicNodes(a0, a1, a2, a3, a4, a5, a6) : ::gmsh::model::mesh::getPeriodicNodes(a0, a1, a2, a3, a4, a5, a6);
      break;
    }
    rec::put(a2);
    rec::put(a3);
    rec::put(a4);
    rec::put(a5);
  });
}
void
call150(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<int>(s, c);
  auto a1 = gen<std::string>(s, c);
  auto a2 = gen<int>(s, c);
  int a3{};
  std::vector<int> a4{};
  std::vector<int> a5{};
  std::vector<std::size_t> a6{};
  std::vector<std::size_t> a7{};
  std::vector<double> a8{};
  std::vector<double> a9{};
  auto a10 = gen<bool>(s, c);
  int const k = 11 - s.irange(0, 1);
  compare(s, c, "model::mesh::getPeriodicKeys", k, [&](bool const wrapped) {
    a3 = {};
    a4 = {};
    a5 = {};
    a6 = {};
    a7 = {};
    a8 = {};
    a9 = {};
    switch (k) {
    case 10:
      wrapped ? um2::gmsh::model::mesh::getPeriodicKeys(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9) : ::gmsh::model::mesh::getPeriodicKeys(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9);
      break;
    case 11:
      wrapped ? um2::gmsh::model::mesh::getPeriodicKeys(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10) : ::gmsh::model::mesh::getPeriodicKeys(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10);
      break;
    }
    rec::put(a3);
    rec::put(a4);
    rec::put(a5);
    rec::put(a6);
    rec::put(a7);
    rec::put(a8);
    rec::put(a9);
  });
}
void
call151(pbt::Src & s, pbt::Case & c)
{
  int const k = 0 - s.irange(0, 0);
  compare(s, c, "model::mesh::importStl", k, [&](bool const wrapped) {
    switch (k) {
    case 0:
      wrapped ? um2::gmsh::model::mesh::importStl() : ::gmsh::model::mesh::importStl();
      break;
    }
  });
}
void
call152(pbt::Src & s, pbt::Case & c)
{
  std::vector<std::size_t> a0{};
  auto a1 = gen<Pairs>(s, c);
  int const k = 2 - s.irange(0, 1);
  compare(s, c, "model::mesh::getDuplicateNodes", k, [&](bool const wrapped) {
    a0 = {};
    switch (k) {
    case 1:
      wrapped ? um2::gmsh::model::mesh::getDuplicateNodes(a0) : ::gmsh::model::mesh::getDuplicateNodes(a0);
      break;
    case 2:
      wrapped ? um2::gmsh::model::mesh::getDuplicateNodes(a0, a1) : ::gmsh::model::mesh::getDuplicateNodes(a0, a1);
      break;
    }
    rec::put(a0);
  });
}
void
call153(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<Pairs>(s, c);
  int const k = 1 - s.irange(0, 1);
  compare(s, c, "model::mesh::removeDuplicateNodes", k, [&](bool const wrapped) {
    switch (k) {
    case 0:
      wrapped ? um2::gmsh::model::mesh::removeDuplicateNodes() : ::gmsh::model::mesh::removeDuplicateNodes();
      break;
    case 1:
      wrapped ? um2::gmsh::model::mesh::removeDuplicateNodes(a0) : ::gmsh::model::mesh::removeDuplicateNodes(a0);
      break;
    }
  });
}
void
call154(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<double>(s, c);
  auto a1 = gen<int>(s, c);
  int const k = 2 - s.irange(0, 2);
  compare(s, c, "model::mesh::splitQuadrangles", k, [&](bool const wrapped) {
    switch (k) {
    case 0:
      wrapped ? um2::gmsh::model::mesh::splitQuadrangles() : ::gmsh::model::mesh::splitQuadrangles();
      break;
    case 1:
      wrapped ? um2::gmsh::model::mesh::splitQuadrangles(a0) : ::gmsh::model::mesh::splitQuadrangles(a0);
      break;
    case 2:
      wrapped ? um2::gmsh::model::mesh::splitQuadrangles(a0, a1) : ::gmsh::model::mesh::splitQuadrangles(a0, a1);
      break;
    }
  });
}
void
call155(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<std::vector<std::size_t>>(s, c);
  auto a1 = gen<int>(s, c);
  int const k = 2 - s.irange(0, 0);
  compare(s, c, "model::mesh::setVisibility", k, [&](bool const wrapped) {
    switch (k) {
    case 2:
      wrapped ? um2::gmsh::model::mesh::setVisibility(a0, a1) : ::gmsh::model::mesh::setVisibility(a0, a1);
      break;
    }
  });
}
void
call156(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<double>(s, c);
  auto a1 = gen<bool>(s, c);
  auto a2 = gen<bool>(s, c);
  auto a3 = gen<double>(s, c);
  auto a4 = gen<bool>(s, c);
  int const k = 5 - s.irange(0, 4);
  compare(s, c, "model::mesh::classifySurfaces", k, [&](bool const wrapped) {
    switch (k) {
    case 1:
      wrapped ? um2::gmsh::model::mesh::classifySurfaces(a0) : ::gmsh::model::mesh::classifySurfaces(a0);
      break;
    case 2:
      wrapped ? um2::gmsh::model::mesh::classifySurfaces(a0, a1) : ::gmsh::model::mesh::classifySurfaces(a0, a1);
      break;
    case 3:
      wrapped ? um2::gmsh::model::mesh::classifySurfaces(a0, a1, a2) : ::gmsh::model::mesh::classifySurfaces(a0, a1, a2);
      break;
    case 4:
      wrapped ? um2::gmsh::model::mesh::classifySurfaces(a0, a1, a2, a3) : ::gmsh::model::mesh::classifySurfaces(a0, a1, a2, a3);
      break;
    case 5:
      wrapped ? um2::gmsh::model::mesh::classifySurfaces(a0, a1, a2, a3, a4) : ::gmsh::model::mesh::classifySurfaces(a0, a1, a2, a3, a4);
      break;
    }
  });
}
void
call157(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<Pairs>(s, c);
  int const k = 1 - s.irange(0, 1);
  compare(s, c, "model::mesh::createGeometry", k, [&](bool const wrapped) {
    switch (k) {
    case 0:
      wrapped ? um2::gmsh::model::mesh::createGeometry() : ::gmsh::model::mesh::createGeometry();
      break;
    case 1:
      wrapped ? um2::gmsh::model::mesh::createGeometry(a0) : ::gmsh::model::mesh::createGeometry(a0);
      break;
    }
  });
}
void
call158(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<bool>(s, c);
  auto a1 = gen<bool>(s, c);
  int const k = 2 - s.irange(0, 2);
  compare(s, c, "model::mesh::createTopology", k, [&](bool const wrapped) {
    switch (k) {
    case 0:
      wrapped ? um2::gmsh::model::mesh::createTopology() : ::gmsh::model::mesh::createTopology();
      break;
    case 1:
      wrapped ? um2::gmsh::model::mesh::createTopology(a0) : ::gmsh::model::mesh::createTopology(a0);
      break;
    case 2:
      wrapped ? um2::gmsh::model::mesh::createTopology(a0, a1) : ::gmsh::model::mesh::createTopology(a0, a1);
      break;
    }
  });
}
void
call159(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<std::string>(s, c);
  auto a1 = gen<std::vector<int>>(s, c);
  auto a2 = gen<std::vector<int>>(s, c);
  auto a3 = gen<std::vector<int>>(s, c);
  int const k = 4 - s.irange(0, 4);
  compare(s, c, "model::mesh::addHomologyRequest", k, [&](bool const wrapped) {
    switch (k) {
    case 0:
      wrapped ? um2::gmsh::model::mesh::addHomologyRequest() : ::gmsh::model::mesh::addHomologyRequest();
      break;
    case 1:
      wrapped ? um2::gmsh::model::mesh::addHomologyRequest(a0) : ::gmsh::model::mesh::addHomologyRequest(a0);
      break;
    case 2:
      wrapped ? um2::gmsh::model::mesh::addHomologyRequest(a0, a1) : ::gmsh::model::mesh::addHomologyRequest(a0, a1);
      break;
    case 3:
      wrapped ? um2::gmsh::model::mesh::addHomologyRequest(a0, a1, a2) : ::gmsh::model::mesh::addHomologyRequest(a0, a1, a2);
      break;
    case 4:
      wrapped ? um2::gmsh::model::mesh::addHomologyRequest(a0, a1, a2, a3) : ::gmsh::model::mesh::addHomologyRequest(a0, a1, a2, a3);
      break;
    }
  });
}
void
call160(pbt::Src & s, pbt::Case & c)
{
  int const k = 0 - s.irange(0, 0);
  compare(s, c, "model::mesh::clearHomologyRequests", k, [&](bool const wrapped) {
    switch (k) {
    case 0:
      wrapped ? um2::gmsh::model::mesh::clearHomologyRequests() : ::gmsh::model::mesh::clearHomologyRequests();
      break;
    }
  });
}
void
call161(pbt::Src & s, pbt::Case & c)
{
  std::vector<int> a0{};
  int const k = 1 - s.irange(0, 0);
  compare(s, c, "model::mesh::computeCrossField", k, [&](bool const wrapped) {
    a0 = {};
    switch (k) {
    case 1:
      wrapped ? um2::gmsh::model::mesh::computeCrossField(a0) : ::gmsh::model::mesh::computeCrossField(a0);
      break;
    }
    rec::put(a0);
  });
}
void
call162(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<std::vector<double>>(s, c);
  std::vector<std::size_t> a1{};
  int const k = 2 - s.irange(0, 0);
  compare(s, c, "model::mesh::triangulate", k, [&](bool const wrapped) {
    a1 = {};
    switch (k) {
    case 2:
      wrapped ? um2::gmsh::model::mesh::triangulate(a0, a1) : ::gmsh::model::mesh::triangulate(a0, a1);
      break;
    }
    rec::put(a1);
  });
}
void
call163(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<std::vector<double>>(s, c);
  std::vector<std::size_t> a1{};
  int const k = 2 - s.irange(0, 0);
  compare(s, c, "model::mesh::tetrahedralize", k, [&](bool const wrapped) {
    a1 = {};
    switch (k) {
    case 2:
      wrapped ? um2::gmsh::model::mesh::tetrahedralize(a0, a1) : ::gmsh::model::mesh::tetrahedralize(a0, a1);
      break;
    }
    rec::put(a1);
  });
}
void
call164(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<std::string>(s, c);
  auto a1 = gen<int>(s, c);
  int const k = 2 - s.irange(0, 1);
  compare(s, c, "model::mesh::field::add", k, [&](bool const wrapped) {
    switch (k) {
    case 1:
      rec::put(wrapped ? um2::gmsh::model::mesh::field::add(a0) : ::gmsh::model::mesh::field::add(a0));
      break;
    case 2:
      rec::put(wrapped ? um2::gmsh::model::mesh::field::add(a0, a1) : ::gmsh::model::mesh::field::add(a0, a1));
      break;
    }
  });
}
void
call165(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<int>(s, c);
  int const k = 1 - s.irange(0, 0);
  compare(s, c, "model::mesh::field::remove", k, [&](bool const wrapped) {
    switch (k) {
    case 1:
      wrapped ? um2::gmsh::model::mesh::field::remove(a0) : ::gmsh::model::mesh::field::remove(a0);
      break;
    }
  });
}
void
call166(pbt::Src & s, pbt::Case & c)
{
  std::vector<int> a0{};
  int const k = 1 - s.irange(0, 0);
  compare(s, c, "model::mesh::field::list", k, [&](bool const wrapped) {
    a0 = {};
    switch (k) {
    case 1:
      wrapped ? um2::gmsh::model::mesh::field::list(a0) : ::gmsh::model::mesh::field::list(a0);
      break;
    }
    rec::put(a0);
  });
}
void
call167(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<int>(s, c);
  std::string a1{};
  int const k = 2 - s.irange(0, 0);
  compare(s, c, "model::mesh::field::getType", k, [&](bool const wrapped) {
    a1 = {};
    switch (k) {
    case 2:
      wrapped ? um2::gmsh::model::mesh::field::getType(a0, a1) : ::gmsh::model::mesh::field::getType(a0, a1);
      break;
    }
    rec::put(a1);
  });
}
void
call168(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<int>(s, c);
  auto a1 = gen<std::string>(s, c);
  auto a2 = gen<double>(s, c);
  int const k = 3 - s.irange(0, 0);
  compare(s, c, "model::mesh::field::setNumber", k, [&](bool const wrapped) {
    switch (k) {
    case 3:
      wrapped ? um2::gmsh::model::mesh::field::setNumber(a0, a1, a2) : ::gmsh::model::mesh::field::setNumber(a0, a1, a2);
      break;
    }
  });
}
void
call169(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<int>(s, c);
  auto a1 = gen<std::string>(s, c);
  double a2{};
  int const k = 3 - s.irange(0, 0);
  compare(s, c, "model::mesh::field::getNumber", k, [&](bool const wrapped) {
    a2 = {};
    switch (k) {
    case 3:
      wrapped ? um2::gmsh::model::mesh::field::getNumber(a0, a1, a2) : ::gmsh::model::mesh::field::getNumber(a0, a1, a2);
      break;
    }
    rec::put(a2);
  });
}
void
call170(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<int>(s, c);
  auto a1 = gen<std::string>(s, c);
  auto a2 = gen<std::string>(s, c);
  int const k = 3 - s.irange(0, 0);
  compare(s, c, "model::mesh::field::setString", k, [&](bool const wrapped) {
    switch (k) {
    case 3:
      wrapped ? um2::gmsh::model::mesh::field::setString(a0, a1, a2) : ::gmsh::model::mesh::field::setString(a0, a1, a2);
      break;
    }
  });
}
void
call171(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<int>(s, c);
  auto a1 = gen<std::string>(s, c);
  std::string a2{};
  int const k = 3 - s.irange(0, 0);
  compare(s, c, "model::mesh::field::getString", k, [&](bool const wrapped) {
    a2 = {};
    switch (k) {
    case 3:
      wrapped ? um2::gmsh::model::mesh::field::getString(a0, a1, a2) : ::gmsh::model::mesh::field::getString(a0, a1, a2);
      break;
    }
    rec::put(a2);
  });
}
void
call172(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<int>(s, c);
  auto a1 = gen<std::string>(s, c);
  auto a2 = gen<std::vector<double>>(s, c);
  int const k = 3 - s.irange(0, 0);
  compare(s, c, "model::mesh::field::setNumbers", k, [&](bool const wrapped) {
    switch (k) {
    case 3:
      wrapped ? um2::gmsh::model::mesh::field::setNumbers(a0, a1, a2) : ::gmsh::model::mesh::field::setNumbers(a0, a1, a2);
      break;
    }
  });
}
void
call173(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<int>(s, c);
  auto a1 = gen<std::string>(s, c);
  std::vector<double> a2{};
  int const k = 3 - s.irange(0, 0);
  compare(s, c, "model::mesh::field::getNumbers", k, [&](bool const wrapped) {
    a2 = {};
    switch (k) {
    case 3:
      wrapped ? um2::gmsh::model::mesh::field::getNumbers(a0, a1, a2) : ::gmsh::model::mesh::field::getNumbers(a0, a1, a2);
      break;
    }
    rec::put(a2);
  });
}
void
call174(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<int>(s, c);
  int const k = 1 - s.irange(0, 0);
  compare(s, c, "model::mesh::field::setAsBackgroundMesh", k, [&](bool const wrapped) {
    switch (k) {
    case 1:
      wrapped ? um2::gmsh::model::mesh::field::setAsBackgroundMesh(a0) : ::gmsh::model::mesh::field::setAsBackgroundMesh(a0);
      break;
    }
  });
}
void
call175(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<int>(s, c);
  int const k = 1 - s.irange(0, 0);
  compare(s, c, "model::mesh::field::setAsBoundaryLayer", k, [&](bool const wrapped) {
    switch (k) {
    case 1:
      wrapped ? um2::gmsh::model::mesh::field::setAsBoundaryLayer(a0) : ::gmsh::model::mesh::field::setAsBoundaryLayer(a0);
      break;
    }
  });
}
void
call176(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<double>(s, c);
  auto a1 = gen<double>(s, c);
  auto a2 = gen<double>(s, c);
  auto a3 = gen<double>(s, c);
  auto a4 = gen<int>(s, c);
  int const k = 5 - s.irange(0, 2);
  compare(s, c, "model::geo::addPoint", k, [&](bool const wrapped) {
    switch (k) {
    case 3:
      rec::put(wrapped ? um2::gmsh::model::geo::addPoint(a0, a1, a2) : ::gmsh::model::geo::addPoint(a0, a1, a2));
      break;
    case 4:
      rec::put(wrapped ? um2::gmsh::model::geo::addPoint(a0, a1, a2, a3) : ::gmsh::model::geo::addPoint(a0, a1, a2, a3));
      break;
    case 5:
      rec::put(wrapped ? um2::gmsh::model::geo::addPoint(a0, a1, a2, a3, a4) : ::gmsh::model::geo::addPoint(a0, a1, a2, a3, a4));
      break;
    }
  });
}
void
call177(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<int>(s, c);
  auto a1 = gen<int>(s, c);
  auto a2 = gen<int>(s, c);
  int const k = 3 - s.irange(0, 1);
  compare(s, c, "model::geo::addLine", k, [&](bool const wrapped) {
    switch (k) {
    case 2:
      rec::put(wrapped ? um2::gmsh::model::geo::addLine(a0, a1) : ::gmsh::model::geo::addLine(a0, a1));
      break;
    case 3:
      rec::put(wrapped ? um2::gmsh::model::geo::addLine(a0, a1, a2) : ::gmsh::model::geo::addLine(a0, a1, a2));
      break;
    }
  });
}
void
call178(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<int>(s, c);
  auto a1 = gen<int>(s, c);
  auto a2 = gen<int>(s, c);
  auto a3 = gen<int>(s, c);
  auto a4 = gen<double>(s, c);
  auto a5 = gen<double>(s, c);
  auto a6 = gen<double>(s, c);
  int const k = 7 - s.irange(0, 4);
  compare(s, c, "model::geo::addCircleArc", k, [&](bool const wrapped) {
    switch (k) {
    case 3:
      rec::put(wrapped ? um2::gmsh::model::geo::addCircleArc(a0, a1, a2) : ::gmsh::model::geo::addCircleArc(a0, a1, a2));
      break;
    case 4:
      rec::put(wrapped ? um2::gmsh::model::geo::addCircleArc(a0, a1, a2, a3) : ::gmsh::model::geo::addCircleArc(a0, a1, a2, a3));
      break;
    case 5:
      rec::put(wrapped ? um2::gmsh::model::geo::addCircleArc(a0, a1, a2, a3, a4) : ::gmsh::model::geo::addCircleArc(a0, a1, a2, a3, a4));
      break;
    case 6:
      rec::put(wrapped ? um2::gmsh::model::geo::addCircleArc(a0, a1, a2, a3, a4, a5) : ::gmsh::model::geo::addCircleArc(a0, a1, a2, a3, a4, a5));
      break;
    case 7:
      rec::put(wrapped ? um2::gmsh::model::geo::addCircleArc(a0, a1, a2, a3, a4, a5, a6) : ::gmsh::model::geo::addCircleArc(a0, a1, a2, a3, a4, a5, a6));
      break;
    }
  });
}
void
call179(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<int>(s, c);
  auto a1 = gen<int>(s, c);
  auto a2 = gen<int>(s, c);
  auto a3 = gen<int>(s, c);
  auto a4 = gen<int>(s, c);
  auto a5 = gen<double>(s, c);
  auto a6 = gen<double>(s, c);
  auto a7 = gen<double>(s, c);
  int const k = 8 - s.irange(0, 4);
  compare(s, c, "model::geo::addEllipseArc", k, [&](bool const wrapped) {
    switch (k) {
    case 4:
      rec::put(wrapped ? um2::gmsh::model::geo::addEllipseArc(a0, a1, a2, a3) : ::gmsh::model::geo::addEllipseArc(a0, a1, a2, a3));
      break;
    case 5:
      rec::put(wrapped ? um2::gmsh::model::geo::addEllipseArc(a0, a1, a2, a3, a4) : ::gmsh::model::geo::addEllipseArc(a0, a1, a2, a3, a4));
      break;
    case 6:
      rec::put(wrapped ? um2::gmsh::model::geo::addEllipseArc(a0, a1, a2, a3, a4, a5) : ::gmsh::model::geo::addEllipseArc(a0, a1, a2, a3, a4, a5));
      break;
    case 7:
      rec::put(wrapped ? um2::gmsh::model::geo::addEllipseArc(a0, a1, a2, a3, a4, a5, a6) : ::gmsh::model::geo::addEllipseArc(a0, a1, a2, a3, a4, a5, a6));
      break;
    case 8:
      rec::put(wrapped ? um2::gmsh::model::geo::addEllipseArc(a0, a1, a2, a3, a4, a5, a6, a7) : ::gmsh::model::geo::addEllipseArc(a0, a1, a2, a3, a4, a5, a6, a7));
      break;
    }
  });
}
void
call180(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<std::vector<int>>(s, c);
  auto a1 = gen<int>(s, c);
  int const k = 2 - s.irange(0, 1);
  compare(s, c, "model::geo::addBSpline", k, [&](bool const wrapped) {
    switch (k) {
    case 1:
      rec::put(wrapped ? um2::gmsh::model::geo::addBSpline(a0) : ::gmsh::model::geo::addBSpline(a0));
      break;
    case 2:
      rec::put(wrapped ? um2::gmsh::model::geo::addBSpline(a0, a1) : ::gmsh::model::geo::addBSpline(a0, a1));
      break;
    }
  });
}
void
call181(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<std::vector<int>>(s, c);
  auto a1 = gen<int>(s, c);
  int const k = 2 - s.irange(0, 1);
  compare(s, c, "model::geo::addBezier", k, [&](bool const wrapped) {
    switch (k) {
    case 1:
      rec::put(wrapped ? um2::gmsh::model::geo::addBezier(a0) : ::gmsh::model::geo::addBezier(a0));
      break;
    case 2:
      rec::put(wrapped ? um2::gmsh::model::geo::addBezier(a0, a1) : ::gmsh::model::geo::addBezier(a0, a1));
      break;
    }
  });
}
void
call182(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<std::vector<int>>(s, c);
  auto a1 = gen<int>(s, c);
  int const k = 2 - s.irange(0, 1);
  compare(s, c, "model::geo::addPolyline", k, [&](bool const wrapped) {
    switch (k) {
    case 1:
      rec::put(wrapped ? um2::gmsh::model::geo::addPolyline(a0) : ::gmsh::model::geo::addPolyline(a0));
      break;
    case 2:
      rec::put(wrapped ? um2::gmsh::model::geo::addPolyline(a0, a1) : ::gmsh::model::geo::addPolyline(a0, a1));
      break;
    }
  });
}
void
call183(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<std::vector<int>>(s, c);
  auto a1 = gen<int>(s, c);
  auto a2 = gen<int>(s, c);
  int const k = 3 - s.irange(0, 2);
  compare(s, c, "model::geo::addCompoundSpline", k, [&](bool const wrapped) {
    switch (k) {
    case 1:
      rec::put(wrapped ? um2::gmsh::model::geo::addCompoundSpline(a0) : ::gmsh::model::geo::addCompoundSpline(a0));
      break;
    case 2:
      rec::put(wrapped ? um2::gmsh::model::geo::addCompoundSpline(a0, a1) : ::gmsh::model::geo::addCompoundSpline(a0, a1));
      break;
    case 3:
      rec::put(wrapped ? um2::gmsh::model::geo::addCompoundSpline(a0, a1, a2) : ::gmsh::model::geo::addCompoundSpline(a0, a1, a2));
      break;
    }
  });
}
void
call184(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<std::vector<int>>(s, c);
  auto a1 = gen<int>(s, c);
  auto a2 = gen<int>(s, c);
  int const k = 3 - s.irange(0, 2);
  compare(s, c, "model::geo::addCompoundBSpline", k, [&](bool const wrapped) {
    switch (k) {
    case 1:
      rec::put(wrapped ? um2::gmsh::model::geo::addCompoundBSpline(a0) : ::gmsh::model::geo::addCompoundBSpline(a0));
      break;
    case 2:
      rec::put(wrapped ? um2::gmsh::model::geo::addCompoundBSpline(a0, a1) : ::gmsh::model::geo::addCompoundBSpline(a0, a1));
      break;
    case 3:
      rec::put(wrapped ? um2::gmsh::model::geo::addCompoundBSpline(a0, a1, a2) : ::gmsh::model::geo::addCompoundBSpline(a0, a1, a2));
      break;
    }
  });
}
void
call185(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<std::vector<int>>(s, c);
  auto a1 = gen<int>(s, c);
  auto a2 = gen<bool>(s, c);
  int const k = 3 - s.irange(0, 2);
  compare(s, c, "model::geo::addCurveLoop", k, [&](bool const wrapped) {
    switch (k) {
    case 1:
      rec::put(wrapped ? um2::gmsh::model::geo::addCurveLoop(a0) : ::gmsh::model::geo::addCurveLoop(a0));
      break;
    case 2:
      rec::put(wrapped ? um2::gmsh::model::geo::addCurveLoop(a0, a1) : ::gmsh::model::geo::addCurveLoop(a0, a1));
      break;
    case 3:
      rec::put(wrapped ? um2::gmsh::model::geo::addCurveLoop(a0, a1, a2) : ::gmsh::model::geo::addCurveLoop(a0, a1, a2));
      break;
    }
  });
}
void
call186(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<std::vector<int>>(s, c);
  std::vector<int> a1{};
  int const k = 2 - s.irange(0, 0);
  compare(s, c, "model::geo::addCurveLoops", k, [&](bool const wrapped) {
    a1 = {};
    switch (k) {
    case 2:
      wrapped ? um2::gmsh::model::geo::addCurveLoops(a0, a1) : ::gmsh::model::geo::addCurveLoops(a0, a1);
      break;
    }
    rec::put(a1);
  });
}
void
call187(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<std::vector<int>>(s, c);
  auto a1 = gen<int>(s, c);
  int const k = 2 - s.irange(0, 1);
  compare(s, c, "model::geo::addPlaneSurface", k, [&](bool const wrapped) {
    switch (k) {
    case 1:
      rec::put(wrapped ? um2::gmsh::model::geo::addPlaneSurface(a0) : ::gmsh::model::geo::addPlaneSurface(a0));
      break;
    case 2:
      rec::put(wrapped ? um2::gmsh::model::geo::addPlaneSurface(a0, a1) : ::gmsh::model::geo::addPlaneSurface(a0, a1));
      break;
    }
  });
}
void
call188(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<std::vector<int>>(s, c);
  auto a1 = gen<int>(s, c);
  auto a2 = gen<int>(s, c);
  int const k = 3 - s.irange(0, 2);
  compare(s, c, "model::geo::addSurfaceFilling", k, [&](bool const wrapped) {
    switch (k) {
    case 1:
      rec::put(wrapped ? um2::gmsh::model::geo::addSurfaceFilling(a0) : ::gmsh::model::geo::addSurfaceFilling(a0));
      break;
    case 2:
      rec::put(wrapped ? um2::gmsh::model::geo::addSurfaceFilling(a0, a1) : ::gmsh::model::geo::addSurfaceFilling(a0, a1));
      break;
    case 3:
      rec::put(wrapped ? um2::gmsh::model::geo::addSurfaceFilling(a0, a1, a2) : ::gmsh::model::geo::addSurfaceFilling(a0, a1, a2));
      break;
    }
  });
}
void
call189(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<Pairs>(s, c);
  auto a1 = gen<double>(s, c);
  auto a2 = gen<double>(s, c);
  auto a3 = gen<double>(s, c);
  auto a4 = gen<double>(s, c);
  auto a5 = gen<double>(s, c);
  auto a6 = gen<double>(s, c);
  auto a7 = gen<double>(s, c);
  Pairs a8{};
  auto a9 = gen<std::vector<int>>(s, c);
  auto a10 = gen<std::vector<double>>(s, c);
  auto a11 = gen<bool>(s, c);
  int const k = 12 - s.irange(0, 3);
  compare(s, c, "model::geo::revolve", k, [&](bool const wrapped) {
    a8 = {};
    switch (k) {
    case 9:
      wrapped ? um2::gmsh::model::geo::revolve(a0, a1, a2, a3, a4, a5, a6, a7, a8) : ::gmsh::model::geo::revolve(a0, a1, a2, a3, a4, a5, a6, a7, a8);
      break;
    case 10:
      wrapped ? um2::gmsh::model::geo::revolve(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9) : ::gmsh::model::geo::revolve(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9);
      break;
    case 11:
      wrapped ? um2::gmsh::model::geo::revolve(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10) : ::gmsh::model::geo::revolve(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10);
      break;
    case 12:
      wrapped ? um2::gmsh::model::geo::revolve(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11) : ::gmsh::model::geo::revolve(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11);
      break;
    }
    rec::put(a8);
  });
}
void
call190(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<Pairs>(s, c);
  auto a1 = gen<double>(s, c);
  auto a2 = gen<double>(s, c);
  auto a3 = gen<double>(s, c);
  auto a4 = gen<double>(s, c);
  auto a5 = gen<double>(s, c);
  auto a6 = gen<double>(s, c);
  auto a7 = gen<double>(s, c);
  auto a8 = gen<double>(s, c);
  auto a9 = gen<double>(s, c);
  auto a10 = gen<double>(s, c);
  Pairs a11{};
  auto a12 = gen<std::vector<int>>(s, c);
  auto a13 = gen<std::vector<double>>(s, c);
  auto a14 = gen<bool>(s, c);
  int const k = 15 - s.irange(0, 3);
  compare(s, c, "model::geo::twist", k, [&](bool const wrapped) {
    a11 = {};
    switch (k) {
    case 12:
      wrapped ? um2::gmsh::model::geo::twist(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11) : ::gmsh::model::geo::twist(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11);
      break;
    case 13:
      wrapped ? um2::gmsh::model::geo::twist(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12) : ::gmsh::model::geo::twist(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12);
      break;
    case 14:
      wrapped ? um2::gmsh::model::geo::twist(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13) : ::gmsh::model::geo::twist(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13);
      break;
    case 15:
      wrapped ? um2::gmsh::model::geo::twist(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14) : ::gmsh::model::geo::twist(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14);
      break;
    }
    rec::put(a11);
  });
}
void
call191(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<Pairs>(s, c);
  Pairs a1{};
  auto a2 = gen<std::vector<int>>(s, c);
  auto a3 = gen<std::vector<double>>(s, c);
  auto a4 = gen<bool>(s, c);
  auto a5 = gen<bool>(s, c);
  auto a6 = gen<int>(s, c);
  int const k = 7 - s.irange(0, 5);
  compare(s, c, "model::geo::extrudeBoundaryLayer", k, [&](bool const wrapped) {
    a1 = {};
    switch (k) {
    case 2:
      wrapped ? um2::gmsh::model::geo::extrudeBoundaryLayer(a0, a1) : ::gmsh::model::geo::extrudeBoundaryLayer(a0, a1);
      break;
    case 3:
      wrapped ? um2::gmsh::model::geo::extrudeBoundaryLayer(a0, a1, a2) : ::gmsh::model::geo::extrudeBoundaryLayer(a0, a1, a2);
      break;
    case 4:
      wrapped ? um2::gmsh::model::geo::extrudeBoundaryLayer(a0, a1, a2, a3) : ::gmsh::model::geo::extrudeBoundaryLayer(a0, a1, a2, a3);
      break;
    case 5:
      wrapped ? um2::gmsh::model::geo::extrudeBoundaryLayer(a0, a1, a2, a3, a4) : ::gmsh::model::geo::extrudeBoundaryLayer(a0, a1, a2, a3, a4);
      break;
    case 6:
      wrapped ? um2::gmsh::model::geo::extrudeBoundaryLayer(a0, a1, a2, a3, a4, a5) : ::gmsh::model::geo::extrudeBoundaryLayer(a0, a1, a2, a3, a4, a5);
      break;
    case 7:
      wrapped ? um2::gmsh::model::geo::extrudeBoundaryLayer(a0, a1, a2, a3, a4, a5, a6) : ::gmsh::model::geo::extrudeBoundaryLayer(a0, a1, a2, a3, a4, a5, a6);
      break;
    }
    rec::put(a1);
  });
}
void
call192(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<Pairs>(s, c);
  auto a1 = gen<double>(s, c);
  auto a2 = gen<double>(s, c);
  auto a3 = gen<double>(s, c);
  int const k = 4 - s.irange(0, 0);
  compare(s, c, "model::geo::translate", k, [&](bool const wrapped) {
    switch (k) {
    case 4:
      wrapped ? um2::gmsh::model::geo::translate(a0, a1, a2, a3) : ::gmsh::model::geo::translate(a0, a1, a2, a3);
      break;
    }
  });
}
void
call193(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<Pairs>(s, c);
  auto a1 = gen<double>(s, c);
  auto a2 = gen<double>(s, c);
  auto a3 = gen<double>(s, c);
  auto a4 = gen<double>(s, c);
  auto a5 = gen<double>(s, c);
  auto a6 = gen<double>(s, c);
  auto a7 = gen<double>(s, c);
  int const k = 8 - s.irange(0, 0);
  compare(s, c, "model::geo::rotate", k, [&](bool const wrapped) {
    switch (k) {
    case 8:
      wrapped ? um2::gmsh::model::geo::rotate(a0, a1, a2, a3, a4, a5, a6, a7) : ::gmsh::model::geo::rotate(a0, a1, a2, a3, a4, a5, a6, a7);
      break;
    }
  });
}
void
call194(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<Pairs>(s, c);
  auto a1 = gen<double>(s, c);
  auto a2 = gen<double>(s, c);
  auto a3 = gen<double>(s, c);
  auto a4 = gen<double>(s, c);
  auto a5 = gen<double>(s, c);
  auto a6 = gen<double>(s, c);
  int const k = 7 - s.irange(0, 0);
  compare(s, c, "model::geo::dilate", k, [&](bool const wrapped) {
    switch (k) {
    case 7:
      wrapped ? um2::gmsh::model::geo::dilate(a0, a1, a2, a3, a4, a5, a6) : ::gmsh::model::geo::dilate(a0, a1, a2, a3, a4, a5, a6);
      break;
    }
  });
}
void
call195(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<Pairs>(s, c);
  auto a1 = gen<double>(s, c);
  auto a2 = gen<double>(s, c);
  auto a3 = gen<double>(s, c);
  auto a4 = gen<double>(s, c);
  int const k = 5 - s.irange(0, 0);
  compare(s, c, "model::geo::mirror", k, [&](bool const wrapped) {
    switch (k) {
    case 5:
      wrapped ? um2::gmsh::model::geo::mirror(a0, a1, a2, a3, a4) : ::gmsh::model::geo::mirror(a0, a1, a2, a3, a4);
      break;
    }
  });
}
void
call196(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<Pairs>(s, c);
  auto a1 = gen<double>(s, c);
  auto a2 = gen<double>(s, c);
  auto a3 = gen<double>(s, c);
  auto a4 = gen<double>(s, c);
  int const k = 5 - s.irange(0, 0);
  compare(s, c, "model::geo::symmetrize", k, [&](bool const wrapped) {
    switch (k) {
    case 5:
      wrapped ? um2::gmsh::model::geo::symmetrize(a0, a1, a2, a3, a4) : ::gmsh::model::geo::symmetrize(a0, a1, a2, a3, a4);
      break;
    }
  });
}
void
call197(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<Pairs>(s, c);
  Pairs a1{};
  int const k = 2 - s.irange(0, 0);
  compare(s, c, "model::geo::copy", k, [&](bool const wrapped) {
    a1 = {};
    switch (k) {
    case 2:
      wrapped ? um2::gmsh::model::geo::copy(a0, a1) : ::gmsh::model::geo::copy(a0, a1);
      break;
    }
    rec::put(a1);
  });
}
void
call198(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<Pairs>(s, c);
  auto a1 = gen<bool>(s, c);
  int const k = 2 - s.irange(0, 1);
  compare(s, c, "model::geo::remove", k, [&](bool const wrapped) {
    switch (k) {
    case 1:
      wrapped ? um2::gmsh::model::geo::remove(a0) : ::gmsh::model::geo::remove(a0);
      break;
    case 2:
      wrapped ? um2::gmsh::model::geo::remove(a0, a1) : ::gmsh::model::geo::remove(a0, a1);
      break;
    }
  });
}
void
call199(pbt::Src & s, pbt::Case & c)
{
  int const k = 0 - s.irange(0, 0);
  compare(s, c, "model::geo::removeAllDuplicates", k, [&](bool const wrapped) {
    switch (k) {
    case 0:
      wrapped ? um2::gmsh::model::geo::removeAllDuplicates() : ::gmsh::model::geo::removeAllDuplicates();
      break;
    }
  });
}
void
call200(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<int>(s, c);
  auto a1 = gen<std::vector<int>>(s, c);
  std::vector<int> a2{};
  int const k = 3 - s.irange(0, 0);
  compare(s, c, "model::geo::splitCurve", k, [&](bool const wrapped) {
    a2 = {};
    switch (k) {
    case 3:
      wrapped ? um2::gmsh::model::geo::splitCurve(a0, a1, a2) : ::gmsh::model::geo::splitCurve(a0, a1, a2);
      break;
    }
    rec::put(a2);
  });
}
void
call201(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<int>(s, c);
  int const k = 1 - s.irange(0, 0);
  compare(s, c, "model::geo::getMaxTag", k, [&](bool const wrapped) {
    switch (k) {
    case 1:
      rec::put(wrapped ? um2::gmsh::model::geo::getMaxTag(a0) : ::gmsh::model::geo::getMaxTag(a0));
      break;
    }
  });
}
void
call202(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<int>(s, c);
  auto a1 = gen<int>(s, c);
  int const k = 2 - s.irange(0, 0);
  compare(s, c, "model::geo::setMaxTag", k, [&](bool const wrapped) {
    switch (k) {
    case 2:
      wrapped ? um2::gmsh::model::geo::setMaxTag(a0, a1) : ::gmsh::model::geo::setMaxTag(a0, a1);
      break;
    }
  });
}
void
call203(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<int>(s, c);
  auto a1 = gen<std::vector<int>>(s, c);
  auto a2 = gen<int>(s, c);
  auto a3 = gen<std::string>(s, c);
  int const k = 4 - s.irange(0, 2);
  compare(s, c, "model::geo::addPhysicalGroup", k, [&](bool const wrapped) {
    switch (k) {
    case 2:
      rec::put(wrapped ? um2::gmsh::model::geo::addPhysicalGroup(a0, a1) : ::gmsh::model::geo::addPhysicalGroup(a0, a1));
      break;
    case 3:
      rec::put(wrapped ? um2::gmsh::model::geo::addPhysicalGroup(a0, a1, a2) : ::gmsh::model::geo::addPhysicalGroup(a0, a1, a2));
      break;
    case 4:
      rec::put(wrapped ? um2::gmsh::model::geo::addPhysicalGroup(a0, a1, a2, a3) : ::gmsh::model::geo::addPhysicalGroup(a0, a1, a2, a3));
      break;
    }
  });
}
void
call204(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<Pairs>(s, c);
  int const k = 1 - s.irange(0, 1);
  compare(s, c, "model::geo::removePhysicalGroups", k, [&](bool const wrapped) {
    switch (k) {
    case 0:
      wrapped ? um2::gmsh::model::geo::removePhysicalGroups() : ::gmsh::model::geo::removePhysicalGroups();
      break;
    case 1:
      wrapped ? um2::gmsh::model::geo::removePhysicalGroups(a0) : ::gmsh::model::geo::removePhysicalGroups(a0);
      break;
    }
  });
}
void
call205(pbt::Src & s, pbt::Case & c)
{
  int const k = 0 - s.irange(0, 0);
  compare(s, c, "model::geo::synchronize", k, [&](bool const wrapped) {
    switch (k) {
    case 0:
      wrapped ? um2::gmsh::model::geo::synchronize() : ::gmsh::model::geo::synchronize();
      break;
    }
  });
}
void
call206(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<Pairs>(s, c);
  auto a1 = gen<double>(s, c);
  int const k = 2 - s.irange(0, 0);
  compare(s, c, "model::geo::mesh::setSize", k, [&](bool const wrapped) {
    switch (k) {
    case 2:
      wrapped ? um2::gmsh::model::geo::mesh::setSize(a0, a1) : ::gmsh::model::geo::mesh::setSize(a0, a1);
      break;
    }
  });
}
void
call207(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<int>(s, c);
  auto a1 = gen<int>(s, c);
  auto a2 = gen<std::string>(s, c);
  auto a3 = gen<double>(s, c);
  int const k = 4 - s.irange(0, 2);
  compare(s, c, "model::geo::mesh::setTransfiniteCurve", k, [&](bool const wrapped) {
    switch (k) {
    case 2:
      wrapped ? um2::gmsh::model::geo::mesh::setTransfiniteCurve(a0, a1) : ::gmsh::model::geo::mesh::setTransfiniteCurve(a0, a1);
      break;
    case 3:
      wrapped ? um2::gmsh::model::geo::mesh::setTransfiniteCurve(a0, a1, a2) : ::gmsh::model::geo::mesh::setTransfiniteCurve(a0, a1, a2);
      break;
    case 4:
      wrapped ? um2::gmsh::model::geo::mesh::setTransfiniteCurve(a0, a1, a2, a3) : ::gmsh::model::geo::mesh::setTransfiniteCurve(a0, a1, a2, a3);
      break;
    }
  });
}
void
call208(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<int>(s, c);
  auto a1 = gen<std::string>(s, c);
  auto a2 = gen<std::vector<int>>(s, c);
  int const k = 3 - s.irange(0, 2);
  compare(s, c, "model::geo::mesh::setTransfiniteSurface", k, [&](bool const wrapped) {
    switch (k) {
    case 1:
      wrapped ? um2::gmsh::model::geo::mesh::setTransfiniteSurface(a0) : ::gmsh::model::geo::mesh::setTransfiniteSurface(a0);
      break;
    case 2:
      wrapped ? um2::gmsh::model::geo::mesh::setTransfiniteSurface(a0, a1) : ::gmsh::model::geo::mesh::setTransfiniteSurface(a0, a1);
      break;
    case 3:
      wrapped ? um2::gmsh::model::geo::mesh::setTransfiniteSurface(a0, a1, a2) : ::gmsh::model::geo::mesh::setTransfiniteSurface(a0, a1, a2);
      break;
    }
  });
}
void
call209(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<int>(s, c);
  auto a1 = gen<std::vector<int>>(s, c);
  int const k = 2 - s.irange(0, 1);
  compare(s, c, "model::geo::mesh::setTransfiniteVolume", k, [&](bool const wrapped) {
    switch (k) {
    case 1:
      wrapped ? um2::gmsh::model::geo::mesh::setTransfiniteVolume(a0) : ::gmsh::model::geo::mesh::setTransfiniteVolume(a0);
      break;
    case 2:
      wrapped ? um2::gmsh::model::geo::mesh::setTransfiniteVolume(a0, a1) : ::gmsh::model::geo::mesh::setTransfiniteVolume(a0, a1);
      break;
    }
  });
}
void
call210(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<int>(s, c);
  auto a1 = gen<int>(s, c);
  auto a2 = gen<double>(s, c);
  int const k = 3 - s.irange(0, 1);
  compare(s, c, "model::geo::mesh::setRecombine", k, [&](bool const wrapped) {
    switch (k) {
    case 2:
      wrapped ? um2::gmsh::model::geo::mesh::setRecombine(a0, a1) : ::gmsh::model::geo::mesh::setRecombine(a0, a1);
      break;
    case 3:
      wrapped ? um2::gmsh::model::geo::mesh::setRecombine(a0, a1, a2) : ::gmsh::model::geo::mesh::setRecombine(a0, a1, a2);
      break;
    }
  });
}
void
call211(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<int>(s, c);
  auto a1 = gen<int>(s, c);
  auto a2 = gen<int>(s, c);
  int const k = 3 - s.irange(0, 0);
  compare(s, c, "model::geo::mesh::setSmoothing", k, [&](bool const wrapped) {
    switch (k) {
    case 3:
      wrapped ? um2::gmsh::model::geo::mesh::setSmoothing(a0, a1, a2) : ::gmsh::model::geo::mesh::setSmoothing(a0, a1, a2);
      break;
    }
  });
}
void
call212(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<int>(s, c);
  auto a1 = gen<int>(s, c);
  auto a2 = gen<bool>(s, c);
  int const k = 3 - s.irange(0, 1);
  compare(s, c, "model::geo::mesh::setReverse", k, [&](bool const wrapped) {
    switch (k) {
    case 2:
      wrapped ? um2::gmsh::model::geo::mesh::setReverse(a0, a1) : ::gmsh::model::geo::mesh::setReverse(a0, a1);
      break;
    case 3:
      wrapped ? um2::gmsh::model::geo::mesh::setReverse(a0, a1, a2) : ::gmsh::model::geo::mesh::setReverse(a0, a1, a2);
      break;
    }
  });
}
void
call213(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<int>(s, c);
  auto a1 = gen<int>(s, c);
  auto a2 = gen<int>(s, c);
  int const k = 3 - s.irange(0, 0);
  compare(s, c, "model::geo::mesh::setAlgorithm", k, [&](bool const wrapped) {
    switch (k) {
    case 3:
      wrapped ? um2::gmsh::model::geo::mesh::setAlgorithm(a0, a1, a2) : ::gmsh::model::geo::mesh::setAlgorithm(a0, a1, a2);
      break;
    }
  });
}
void
call214(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<int>(s, c);
  auto a1 = gen<int>(s, c);
  auto a2 = gen<int>(s, c);
  int const k = 3 - s.irange(0, 0);
  compare(s, c, "model::geo::mesh::setSizeFromBoundary", k, [&](bool const wrapped) {
    switch (k) {
    case 3:
      wrapped ? um2::gmsh::model::geo::mesh::setSizeFromBoundary(a0, a1, a2) : ::gmsh::model::geo::mesh::setSizeFromBoundary(a0, a1, a2);
      break;
    }
  });
}
void
call215(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<double>(s, c);
  auto a1 = gen<double>(s, c);
  auto a2 = gen<double>(s, c);
  auto a3 = gen<double>(s, c);
  auto a4 = gen<int>(s, c);
  int const k = 5 - s.irange(0, 2);
  compare(s, c, "model::occ::addPoint", k, [&](bool const wrapped) {
    switch (k) {
    case 3:
      rec::put(wrapped ? um2::gmsh::model::occ::addPoint(a0, a1, a2) : ::gmsh::model::occ::addPoint(a0, a1, a2));
      break;
    case 4:
      rec::put(wrapped ? um2::gmsh::model::occ::addPoint(a0, a1, a2, a3) : ::gmsh::model::occ::addPoint(a0, a1, a2, a3));
      break;
    case 5:
      rec::put(wrapped ? um2::gmsh::model::occ::addPoint(a0, a1, a2, a3, a4) : ::gmsh::model::occ::addPoint(a0, a1, a2, a3, a4));
      break;
    }
  });
}
void
call216(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<int>(s, c);
  auto a1 = gen<int>(s, c);
  auto a2 = gen<int>(s, c);
  int const k = 3 - s.irange(0, 1);
  compare(s, c, "model::occ::addLine", k, [&](bool const wrapped) {
    switch (k) {
    case 2:
      rec::put(wrapped ? um2::gmsh::model::occ::addLine(a0, a1) : ::gmsh::model::occ::addLine(a0, a1));
      break;
    case 3:
      rec::put(wrapped ? um2::gmsh::model::occ::addLine(a0, a1, a2) : ::gmsh::model::occ::addLine(a0, a1, a2));
      break;
    }
  });
}
void
call217(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<int>(s, c);
  auto a1 = gen<int>(s, c);
  auto a2 = gen<int>(s, c);
  auto a3 = gen<int>(s, c);
  int const k = 4 - s.irange(0, 1);
  compare(s, c, "model::occ::addCircleArc", k, [&](bool const wrapped) {
    switch (k) {
    case 3:
      rec::put(wrapped ? um2::gmsh::model::occ::addCircleArc(a0, a1, a2) : ::gmsh::model::occ::addCircleArc(a0, a1, a2));
      break;
    case 4:
      rec::put(wrapped ? um2::gmsh::model::occ::addCircleArc(a0, a1, a2, a3) : ::gmsh::model::occ::addCircleArc(a0, a1, a2, a3));
      break;
    }
  });
}
void
call218(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<double>(s, c);
  auto a1 = gen<double>(s, c);
  auto a2 = gen<double>(s, c);
  auto a3 = gen<double>(s, c);
  auto a4 = gen<int>(s, c);
  auto a5 = gen<double>(s, c);
  auto a6 = gen<double>(s, c);
  auto a7 = gen<std::vector<double>>(s, c);
  auto a8 = gen<std::vector<double>>(s, c);
  int const k = 9 - s.irange(0, 5);
  compare(s, c, "model::occ::addCircle", k, [&](bool const wrapped) {
    switch (k) {
    case 4:
      rec::put(wrapped ? um2::gmsh::model::occ::addCircle(a0, a1, a2, a3) : ::gmsh::model::occ::addCircle(a0, a1, a2, a3));
      break;
    case 5:
      rec::put(wrapped ? um2::gmsh::model::occ::addCircle(a0, a1, a2, a3, a4) : ::gmsh::model::occ::addCircle(a0, a1, a2, a3, a4));
      break;
    case 6:
      rec::put(wrapped ? um2::gmsh::model::occ::addCircle(a0, a1, a2, a3, a4, a5) : ::gmsh::model::occ::addCircle(a0, a1, a2, a3, a4, a5));
      break;
    case 7:
      rec::put(wrapped ? um2::gmsh::model::occ::addCircle(a0, a1, a2, a3, a4, a5, a6) : ::gmsh::model::occ::addCircle(a0, a1, a2, a3, a4, a5, a6));
      break;
    case 8:
      rec::put(wrapped ? um2::gmsh::model::occ::addCircle(a0, a1, a2, a3, a4, a5, a6, a7) : ::gmsh::model::occ::addCircle(a0, a1, a2, a3, a4, a5, a6, a7));
      break;
    case 9:
      rec::put(wrapped ? um2::gmsh::model::occ::addCircle(a0, a1, a2, a3, a4, a5, a6, a7, a8) : ::gmsh::model::occ::addCircle(a0, a1, a2, a3, a4, a5, a6, a7, a8));
      break;
    }
  });
}
void
call219(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<int>(s, c);
  auto a1 = gen<int>(s, c);
  auto a2 = gen<int>(s, c);
  auto a3 = gen<int>(s, c);
  auto a4 = gen<int>(s, c);
  int const k = 5 - s.irange(0, 1);
  compare(s, c, "model::occ::addEllipseArc", k, [&](bool const wrapped) {
    switch (k) {
    case 4:
      rec::put(wrapped ? um2::gmsh::model::occ::addEllipseArc(a0, a1, a2, a3) : ::gmsh::model::occ::addEllipseArc(a0, a1, a2, a3));
      break;
    case 5:
      rec::put(wrapped ? um2::gmsh::model::occ::addEllipseArc(a0, a1, a2, a3, a4) : ::gmsh::model::occ::addEllipseArc(a0, a1, a2, a3, a4));
      break;
    }
  });
}
void
call220(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<double>(s, c);
  auto a1 = gen<double>(s, c);
  auto a2 = gen<double>(s, c);
  auto a3 = gen<double>(s, c);
  auto a4 = gen<double>(s, c);
  auto a5 = gen<int>(s, c);
  auto a6 = gen<double>(s, c);
  auto a7 = gen<double>(s, c);
  auto a8 = gen<std::vector<double>>(s, c);
  auto a9 = gen<std::vector<double>>(s, c);
  int const k = 10 - s.irange(0, 5);
  compare(s, c, "model::occ::addEllipse", k, [&](bool const wrapped) {
    switch (k) {
    case 5:
      rec::put(wrapped ? um2::gmsh::model::occ::addEllipse(a0, a1, a2, a3, a4) : ::gmsh::model::occ::addEllipse(a0, a1, a2, a3, a4));
      break;
    case 6:
      rec::put(wrapped ? um2::gmsh::model::occ::addEllipse(a0, a1, a2, a3, a4, a5) : ::gmsh::model::occ::addEllipse(a0, a1, a2, a3, a4, a5));
      break;
    case 7:
      rec::put(wrapped ? um2::gmsh::model::occ::addEllipse(a0, a1, a2, a3, a4, a5, a6) : ::gmsh::model::occ::addEllipse(a0, a1, a2, a3, a4, a5, a6));
      break;
    case 8:
      rec::put(wrapped ? um2::gmsh::model::occ::addEllipse(a0, a1, a2, a3, a4, a5, a6, a7) : ::gmsh::model::occ::addEllipse(a0, a1, a2, a3, a4, a5, a6, a7));
      break;
    case 9:
      rec::put(wrapped ? um2::gmsh::model::occ::addEllipse(a0, a1, a2, a3, a4, a5, a6, a7, a8) : ::gmsh::model::occ::addEllipse(a0, a1, a2, a3, a4, a5, a6, a7, a8));
      break;
    case 10:
      rec::put(wrapped ? um2::gmsh::model::occ::addEllipse(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9) : ::gmsh::model::occ::addEllipse(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9));
      break;
    }
  });
}
void
call221(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<std::vector<int>>(s, c);
  auto a1 = gen<int>(s, c);
  auto a2 = gen<int>(s, c);
  auto a3 = gen<std::vector<double>>(s, c);
  auto a4 = gen<std::vector<double>>(s, c);
  auto a5 = gen<std::vector<int>>(s, c);
  int const k = 6 - s.irange(0, 5);
  compare(s, c, "model::occ::addBSpline", k, [&](bool const wrapped) {
    switch (k) {
    case 1:
      rec::put(wrapped ? um2::gmsh::model::occ::addBSpline(a0) : ::gmsh::model::occ::addBSpline(a0));
      break;
    case 2:
      rec::put(wrapped ? um2::gmsh::model::occ::addBSpline(a0, a1) : ::gmsh::model::occ::addBSpline(a0, a1));
      break;
    case 3:
      rec::put(wrapped ? um2::gmsh::model::occ::addBSpline(a0, a1, a2) : ::gmsh::model::occ::addBSpline(a0, a1, a2));
      break;
    case 4:
      rec::put(wrapped ? um2::gmsh::model::occ::addBSpline(a0, a1, a2, a3) : ::gmsh::model::occ::addBSpline(a0, a1, a2, a3));
      break;
    case 5:
      rec::put(wrapped ? um2::gmsh::model::occ::addBSpline(a0, a1, a2, a3, a4) : ::gmsh::model::occ::addBSpline(a0, a1, a2, a3, a4));
      break;
    case 6:
      rec::put(wrapped ? um2::gmsh::model::occ::addBSpline(a0, a1, a2, a3, a4, a5) : ::gmsh::model::occ::addBSpline(a0, a1, a2, a3, a4, a5));
      break;
    }
  });
}
void
call222(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<std::vector<int>>(s, c);
  auto a1 = gen<int>(s, c);
  int const k = 2 - s.irange(0, 1);
  compare(s, c, "model::occ::addBezier", k, [&](bool const wrapped) {
    switch (k) {
    case 1:
      rec::put(wrapped ? um2::gmsh::model::occ::addBezier(a0) : ::gmsh::model::occ::addBezier(a0));
      break;
    case 2:
      rec::put(wrapped ? um2::gmsh::model::occ::addBezier(a0, a1) : ::gmsh::model::occ::addBezier(a0, a1));
      break;
    }
  });
}
void
call223(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<std::vector<int>>(s, c);
  auto a1 = gen<int>(s, c);
  auto a2 = gen<bool>(s, c);
  int const k = 3 - s.irange(0, 2);
  compare(s, c, "model::occ::addWire", k, [&](bool const wrapped) {
    switch (k) {
    case 1:
      rec::put(wrapped ? um2::gmsh::model::occ::addWire(a0) : ::gmsh::model::occ::addWire(a0));
      break;
    case 2:
      rec::put(wrapped ? um2::gmsh::model::occ::addWire(a0, a1) : ::gmsh::model::occ::addWire(a0, a1));
      break;
    case 3:
      rec::put(wrapped ? um2::gmsh::model::occ::addWire(a0, a1, a2) : ::gmsh::model::occ::addWire(a0, a1, a2));
      break;
    }
  });
}
void
call224(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<std::vector<int>>(s, c);
  auto a1 = gen<int>(s, c);
  int const k = 2 - s.irange(0, 1);
  compare(s, c, "model::occ::addCurveLoop", k, [&](bool const wrapped) {
    switch (k) {
    case 1:
      rec::put(wrapped ? um2::gmsh::model::occ::addCurveLoop(a0) : ::gmsh::model::occ::addCurveLoop(a0));
      break;
    case 2:
      rec::put(wrapped ? um2::gmsh::model::occ::addCurveLoop(a0, a1) : ::gmsh::model::occ::addCurveLoop(a0, a1));
      break;
    }
  });
}
void
call225(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<double>(s, c);
  auto a1 = gen<double>(s, c);
  auto a2 = gen<double>(s, c);
  auto a3 = gen<double>(s, c);
  auto a4 = gen<double>(s, c);
  auto a5 = gen<int>(s, c);
  auto a6 = gen<double>(s, c);
  int const k = 7 - s.irange(0, 2);
  compare(s, c, "model::occ::addRectangle", k, [&](bool const wrapped) {
    switch (k) {
    case 5:
      rec::put(wrapped ? um2::gmsh::model::occ::addRectangle(a0, a1, a2, a3, a4) : ::gmsh::model::occ::addRectangle(a0, a1, a2, a3, a4));
      break;
    case 6:
      rec::put(wrapped ? um2::gmsh::model::occ::addRectangle(a0, a1, a2, a3, a4, a5) : ::gmsh::model::occ::addRectangle(a0, a1, a2, a3, a4, a5));
      break;
    case 7:
      rec::put(wrapped ? um2::gmsh::model::occ::addRectangle(a0, a1, a2, a3, a4, a5, a6) : ::gmsh::model::occ::addRectangle(a0, a1, a2, a3, a4, a5, a6));
      break;
    }
  });
}
void
call226(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<double>(s, c);
  auto a1 = gen<double>(s, c);
  auto a2 = gen<double>(s, c);
  auto a3 = gen<double>(s, c);
  auto a4 = gen<double>(s, c);
  auto a5 = gen<int>(s, c);
  auto a6 = gen<std::vector<double>>(s, c);
  auto a7 = gen<std::vector<double>>(s, c);
  int const k = 8 - s.irange(0, 3);
  compare(s, c, "model::occ::addDisk", k, [&](bool const wrapped) {
    switch (k) {
    case 5:
      rec::put(wrapped ? um2::gmsh::model::occ::addDisk(a0, a1, a2, a3, a4) : ::gmsh::model::occ::addDisk(a0, a1, a2, a3, a4));
      break;
    case 6:
      rec::put(wrapped ? um2::gmsh::model::occ::addDisk(a0, a1, a2, a3, a4, a5) : ::gmsh::model::occ::addDisk(a0, a1, a2, a3, a4, a5));
      break;
    case 7:
      rec::put(wrapped ? um2::gmsh::model::occ::addDisk(a0, a1, a2, a3, a4, a5, a6) : ::gmsh::model::occ::addDisk(a0, a1, a2, a3, a4, a5, a6));
      break;
    case 8:
      rec::put(wrapped ? um2::gmsh::model::occ::addDisk(a0, a1, a2, a3, a4, a5, a6, a7) : ::gmsh::model::occ::addDisk(a0, a1, a2, a3, a4, a5, a6, a7));
      break;
    }
  });
}
void
call227(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<std::vector<int>>(s, c);
  auto a1 = gen<int>(s, c);
  int const k = 2 - s.irange(0, 1);
  compare(s, c, "model::occ::addPlaneSurface", k, [&](bool const wrapped) {
    switch (k) {
    case 1:
      rec::put(wrapped ? um2::gmsh::model::occ::addPlaneSurface(a0) : ::gmsh::model::occ::addPlaneSurface(a0));
      break;
    case 2:
      rec::put(wrapped ? um2::gmsh::model::occ::addPlaneSurface(a0, a1) : ::gmsh::model::occ::addPlaneSurface(a0, a1));
      break;
    }
  });
}
void
call228(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<int>(s, c);
  auto a1 = gen<int>(s, c);
  auto a2 = gen<std::vector<int>>(s, c);
  auto a3 = gen<int>(s, c);
  auto a4 = gen<int>(s, c);
  auto a5 = gen<int>(s, c);
  auto a6 = gen<bool>(s, c);
  auto a7 = gen<double>(s, c);
  auto a8 = gen<double>(s, c);
  auto a9 = gen<double>(s, c);
  auto a10 = gen<double>(s, c);
  auto a11 = gen<int>(s, c);
  auto a12 = gen<int>(s, c);
  int const k = 13 - s.irange(0, 12);
  compare(s, c, "model::occ::addSurfaceFilling", k, [&](bool const wrapped) {
    switch (k) {
    case 1:
      rec::put(wrapped ? um2::gmsh::model::occ::addSurfaceFilling(a0) : ::gmsh::model::occ::addSurfaceFilling(a0));
      break;
    case 2:
      rec::put(wrapped ? um2::gmsh::model::occ::addSurfaceFilling(a0, a1) : ::gmsh::model::occ::addSurfaceFilling(a0, a1));
      break;
    case 3:
      rec::put(wrapped ? um2::gmsh::model::occ::addSurfaceFilling(a0, a1, a2) : ::gmsh::model::occ::addSurfaceFilling(a0, a1, a2));
      break;
    case 4:
      rec::put(wrapped ? um2::gmsh::model::occ::addSurfaceFilling(a0, a1, a2, a3) : ::gmsh::model::occ::addSurfaceFilling(a0, a1, a2, a3));
      break;
    case 5:
      rec::put(wrapped ? um2::gmsh::model::occ::addSurfaceFilling(a0, a1, a2, a3, a4) : ::gmsh::model::occ::addSurfaceFilling(a0, a1, a2, a3, a4));
      break;
    case 6:
      rec::put(wrapped ? um2::gmsh::model::occ::addSurfaceFilling(a0, a1, a2, a3, a4, a5) : ::gmsh::model::occ::addSurfaceFilling(a0, a1, a2, a3, a4, a5));
      break;
    case 7:
      rec::put(wrapped ? um2::gmsh::model::occ::addSurfaceFilling(a0, a1, a2, a3, a4, a5, a6) : ::gmsh::model::occ::addSurfaceFilling(a0, a1, a2, a3, a4, a5, a6));
      break;
    case 8:
      rec::put(wrapped ? um2::gmsh::model::occ::addSurfaceFilling(a0, a1, a2, a3, a4, a5, a6, a7) : ::gmsh::model::occ::addSurfaceFilling(a0, a1, a2, a3, a4, a5, a6, a7));
      break;
    case 9:
      rec::put(wrapped ? um2::gmsh::model::occ::addSurfaceFilling(a0, a1, a2, a3, a4, a5, a6, a7, a8) : ::gmsh::model::occ::addSurfaceFilling(a0, a1, a2, a3, a4, a5, a6, a7, a8));
      break;
    case 10:
      rec::put(wrapped ? um2::gmsh::model::occ::addSurfaceFilling(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9) : ::gmsh::model::occ::addSurfaceFilling(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9));
      break;
    case 11:
      rec::put(wrapped ? um2::gmsh::model::occ::addSurfaceFilling(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10) : ::gmsh::model::occ::addSurfaceFilling(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10));
      break;
    case 12:
      rec::put(wrapped ? um2::gmsh::model::occ::addSurfaceFilling(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11) : ::gmsh::model::occ::addSurfaceFilling(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11));
      break;
    case 13:
      rec::put(wrapped ? um2::gmsh::model::occ::addSurfaceFilling(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12) : ::gmsh::model::occ::addSurfaceFilling(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12));
      break;
    }
  });
}
void
call229(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<int>(s, c);
  auto a1 = gen<int>(s, c);
  auto a2 = gen<std::string>(s, c);
  int const k = 3 - s.irange(0, 2);
  compare(s, c, "model::occ::addBSplineFilling", k, [&](bool const wrapped) {
    switch (k) {
    case 1:
      rec::put(wrapped ? um2::gmsh::model::occ::addBSplineFilling(a0) : ::gmsh::model::occ::addBSplineFilling(a0));
      break;
    case 2:
      rec::put(wrapped ? um2::gmsh::model::occ::addBSplineFilling(a0, a1) : ::gmsh::model::occ::addBSplineFilling(a0, a1));
      break;
    case 3:
      rec::put(wrapped ? um2::gmsh::model::occ::addBSplineFilling(a0, a1, a2) : ::gmsh::model::occ::addBSplineFilling(a0, a1, a2));
      break;
    }
  });
}
void
call230(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<int>(s, c);
  auto a1 = gen<int>(s, c);
  auto a2 = gen<std::string>(s, c);
  int const k = 3 - s.irange(0, 2);
  compare(s, c, "model::occ::addBezierFilling", k, [&](bool const wrapped) {
    switch (k) {
    case 1:
      rec::put(wrapped ? um2::gmsh::model::occ::addBezierFilling(a0) : ::gmsh::model::occ::addBezierFilling(a0));
      break;
    case 2:
      rec::put(wrapped ? um2::gmsh::model::occ::addBezierFilling(a0, a1) : ::gmsh::model::occ::addBezierFilling(a0, a1));
      break;
    case 3:
      rec::put(wrapped ? um2::gmsh::model::occ::addBezierFilling(a0, a1, a2) : ::gmsh::model::occ::addBezierFilling(a0, a1, a2));
      break;
    }
  });
}
void
call231(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<std::vector<int>>(s, c);
  auto a1 = gen<int>(s, c);
  auto a2 = gen<int>(s, c);
  auto a3 = gen<int>(s, c);
  auto a4 = gen<int>(s, c);
  auto a5 = gen<std::vector<double>>(s, c);
  auto a6 = gen<std::vector<double>>(s, c);
  auto a7 = gen<std::vector<double>>(s, c);
  auto a8 = gen<std::vector<int>>(s, c);
  auto a9 = gen<std::vector<int>>(s, c);
  auto a10 = gen<std::vector<int>>(s, c);
  auto a11 = gen<bool>(s, c);
  int const k = 12 - s.irange(0, 10);
  compare(s, c, "model::occ::addBSplineSurface", k, [&](bool const wrapped) {
    switch (k) {
    case 2:
      rec::put(wrapped ? um2::gmsh::model::occ::addBSplineSurface(a0, a1) : ::gmsh::model::occ::addBSplineSurface(a0, a1));
      break;
    case 3:
      rec::put(wrapped ? um2::gmsh::model::occ::addBSplineSurface(a0, a1, a2) : ::gmsh::model::occ::addBSplineSurface(a0, a1, a2));
      break;
    case 4:
      rec::put(wrapped ? um2::gmsh::model::occ::addBSplineSurface(a0, a1, a2, a3) : ::gmsh::model::occ::addBSplineSurface(a0, a1, a2, a3));
      break;
    case 5:
      rec::put(wrapped ? um2::gmsh::model::occ::addBSplineSurface(a0, a1, a2, a3, a4) : ::gmsh::model::occ::addBSplineSurface(a0, a1, a2, a3, a4));
      break;
    case 6:
      rec::put(wrapped ? um2::gmsh::model::occ::addBSplineSurface(a0, a1, a2, a3, a4, a5) : ::gmsh::model::occ::addBSplineSurface(a0, a1, a2, a3, a4, a5));
      break;
    case 7:
      rec::put(wrapped ? um2::gmsh::model::occ::addBSplineSurface(a0, a1, a2, a3, a4, a5, a6) : ::gmsh::model::occ::addBSplineSurface(a0, a1, a2, a3, a4, a5, a6));
      break;
    case 8:
      rec::put(wrapped ? um2::gmsh::model::occ::addBSplineSurface(a0, a1, a2, a3, a4, a5, a6, a7) : ::gmsh::model::occ::addBSplineSurface(a0, a1, a2, a3, a4, a5, a6, a7));
      break;
    case 9:
      rec::put(wrapped ? um2::gmsh::model::occ::addBSplineSurface(a0, a1, a2, a3, a4, a5, a6, a7, a8) : ::gmsh::model::occ::addBSplineSurface(a0, a1, a2, a3, a4, a5, a6, a7, a8));
      break;
    case 10:
      rec::put(wrapped ? um2::gmsh::model::occ::addBSplineSurface(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9) : ::gmsh::model::occ::addBSplineSurface(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9));
      break;
    case 11:
      rec::put(wrapped ? um2::gmsh::model::occ::addBSplineSurface(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10) : ::gmsh::model::occ::addBSplineSurface(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10));
      break;
    case 12:
      rec::put(wrapped ? um2::gmsh::model::occ::addBSplineSurface(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11) : ::gmsh::model::occ::addBSplineSurface(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11));
      break;
    }
  });
}
void
call232(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<std::vector<int>>(s, c);
  auto a1 = gen<int>(s, c);
  auto a2 = gen<int>(s, c);
  auto a3 = gen<std::vector<int>>(s, c);
  auto a4 = gen<bool>(s, c);
  int const k = 5 - s.irange(0, 3);
  compare(s, c, "model::occ::addBezierSurface", k, [&](bool const wrapped) {
    switch (k) {
    case 2:
      rec::put(wrapped ? um2::gmsh::model::occ::addBezierSurface(a0, a1) : ::gmsh::model::occ::addBezierSurface(a0, a1));
      break;
    case 3:
      rec::put(wrapped ? um2::gmsh::model::occ::addBezierSurface(a0, a1, a2) : ::gmsh::model::occ::addBezierSurface(a0, a1, a2));
      break;
    case 4:
      rec::put(wrapped ? um2::gmsh::model::occ::addBezierSurface(a0, a1, a2, a3) : ::gmsh::model::occ::addBezierSurface(a0, a1, a2, a3));
      break;
    case 5:
      rec::put(wrapped ? um2::gmsh::model::occ::addBezierSurface(a0, a1, a2, a3, a4) : ::gmsh::model::occ::addBezierSurface(a0, a1, a2, a3, a4));
      break;
    }
  });
}
void
call233(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<int>(s, c);
  auto a1 = gen<std::vector<int>>(s, c);
  auto a2 = gen<bool>(s, c);
  auto a3 = gen<int>(s, c);
  int const k = 4 - s.irange(0, 3);
  compare(s, c, "model::occ::addTrimmedSurface", k, [&](bool const wrapped) {
    switch (k) {
    case 1:
      rec::put(wrapped ? um2::gmsh::model::occ::addTrimmedSurface(a0) : ::gmsh::model::occ::addTrimmedSurface(a0));
      break;
    case 2:
      rec::put(wrapped ? um2::gmsh::model::occ::addTrimmedSurface(a0, a1) : ::gmsh::model::occ::addTrimmedSurface(a0, a1));
      break;
    case 3:
      rec::put(wrapped ? um2::gmsh::model::occ::addTrimmedSurface(a0, a1, a2) : ::gmsh::model::occ::addTrimmedSurface(a0, a1, a2));
      break;
    case 4:
      rec::put(wrapped ? um2::gmsh::model::occ::addTrimmedSurface(a0, a1, a2, a3) : ::gmsh::model::occ::addTrimmedSurface(a0, a1, a2, a3));
      break;
    }
  });
}
void
call234(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<std::vector<int>>(s, c);
  auto a1 = gen<int>(s, c);
  auto a2 = gen<bool>(s, c);
  int const k = 3 - s.irange(0, 2);
  compare(s, c, "model::occ::addSurfaceLoop", k, [&](bool const wrapped) {
    switch (k) {
    case 1:
      rec::put(wrapped ? um2::gmsh::model::occ::addSurfaceLoop(a0) : ::gmsh::model::occ::addSurfaceLoop(a0));
      break;
    case 2:
      rec::put(wrapped ? um2::gmsh::model::occ::addSurfaceLoop(a0, a1) : ::gmsh::model::occ::addSurfaceLoop(a0, a1));
      break;
    case 3:
      rec::put(wrapped ? um2::gmsh::model::occ::addSurfaceLoop(a0, a1, a2) : ::gmsh::model::occ::addSurfaceLoop(a0, a1, a2));
      break;
    }
  });
}
void
call235(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<std::vector<int>>(s, c);
  auto a1 = gen<int>(s, c);
  int const k = 2 - s.irange(0, 1);
  compare(s, c, "model::occ::addVolume", k, [&](bool const wrapped) {
    switch (k) {
    case 1:
      rec::put(wrapped ? um2::gmsh::model::occ::addVolume(a0) : ::gmsh::model::occ::addVolume(a0));
      break;
    case 2:
      rec::put(wrapped ? um2::gmsh::model::occ::addVolume(a0, a1) : ::gmsh::model::occ::addVolume(a0, a1));
      break;
    }
  });
}
void
call236(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<double>(s, c);
  auto a1 = gen<double>(s, c);
  auto a2 = gen<double>(s, c);
  auto a3 = gen<double>(s, c);
  auto a4 = gen<int>(s, c);
  auto a5 = gen<double>(s, c);
  auto a6 = gen<double>(s, c);
  auto a7 = gen<double>(s, c);
  int const k = 8 - s.irange(0, 4);
  compare(s, c, "model::occ::addSphere", k, [&](bool const wrapped) {
    switch (k) {
    case 4:
      rec::put(wrapped ? um2::gmsh::model::occ::addSphere(a0, a1, a2, a3) : ::gmsh::model::occ::addSphere(a0, a1, a2, a3));
      break;
    case 5:
      rec::put(wrapped ? um2::gmsh::model::occ::addSphere(a0, a1, a2, a3, a4) : ::gmsh::model::occ::addSphere(a0, a1, a2, a3, a4));
      break;
    case 6:
      rec::put(wrapped ? um2::gmsh::model::occ::addSphere(a0, a1, a2, a3, a4, a5) : ::gmsh::model::occ::addSphere(a0, a1, a2, a3, a4, a5));
      break;
    case 7:
      rec::put(wrapped ? um2::gmsh::model::occ::addSphere(a0, a1, a2, a3, a4, a5, a6) : ::gmsh::model::occ::addSphere(a0, a1, a2, a3, a4, a5, a6));
      break;
    case 8:
      rec::put(wrapped ? um2::gmsh::model::occ::addSphere(a0, a1, a2, a3, a4, a5, a6, a7) : ::gmsh::model::occ::addSphere(a0, a1, a2, a3, a4, a5, a6, a7));
      break;
    }
  });
}
void
call237(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<double>(s, c);
  auto a1 = gen<double>(s, c);
  auto a2 = gen<double>(s, c);
  auto a3 = gen<double>(s, c);
  auto a4 = gen<double>(s, c);
  auto a5 = gen<double>(s, c);
  auto a6 = gen<int>(s, c);
  int const k = 7 - s.irange(0, 1);
  compare(s, c, "model::occ::addBox", k, [&](bool const wrapped) {
    switch (k) {
    case 6:
      rec::put(wrapped ? um2::gmsh::model::occ::addBox(a0, a1, a2, a3, a4, a5) : ::gmsh::model::occ::addBox(a0, a1, a2, a3, a4, a5));
      break;
    case 7:
      rec::put(wrapped ? um2::gmsh::model::occ::addBox(a0, a1, a2, a3, a4, a5, a6) : ::gmsh::model::occ::addBox(a0, a1, a2, a3, a4, a5, a6));
      break;
    }
  });
}
void
call238(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<double>(s, c);
  auto a1 = gen<double>(s, c);
  auto a2 = gen<double>(s, c);
  auto a3 = gen<double>(s, c);
  auto a4 = gen<double>(s, c);
  auto a5 = gen<double>(s, c);
  auto a6 = gen<double>(s, c);
  auto a7 = gen<int>(s, c);
  auto a8 = gen<double>(s, c);
  int const k = 9 - s.irange(0, 2);
  compare(s, c, "model::occ::addCylinder", k, [&](bool const wrapped) {
    switch (k) {
    case 7:
      rec::put(wrapped ? um2::gmsh::model::occ::addCylinder(a0, a1, a2, a3, a4, a5, a6) : ::gmsh::model::occ::addCylinder(a0, a1, a2, a3, a4, a5, a6));
      break;
    case 8:
      rec::put(wrapped ? um2::gmsh::model::occ::addCylinder(a0, a1, a2, a3, a4, a5, a6, a7) : ::gmsh::model::occ::addCylinder(a0, a1, a2, a3, a4, a5, a6, a7));
      break;
    case 9:
      rec::put(wrapped ? um2::gmsh::model::occ::addCylinder(a0, a1, a2, a3, a4, a5, a6, a7, a8) : ::gmsh::model::occ::addCylinder(a0, a1, a2, a3, a4, a5, a6, a7, a8));
      break;
    }
  });
}
void
call239(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<double>(s, c);
  auto a1 = gen<double>(s, c);
  auto a2 = gen<double>(s, c);
  auto a3 = gen<double>(s, c);
  auto a4 = gen<double>(s, c);
  auto a5 = gen<double>(s, c);
  auto a6 = gen<double>(s, c);
  auto a7 = gen<double>(s, c);
  auto a8 = gen<int>(s, c);
  auto a9 = gen<double>(s, c);
  int const k = 10 - s.irange(0, 2);
  compare(s, c, "model::occ::addCone", k, [&](bool const wrapped) {
    switch (k) {
    case 8:
      rec::put(wrapped ? um2::gmsh::model::occ::addCone(a0, a1, a2, a3, a4, a5, a6, a7) : ::gmsh::model::occ::addCone(a0, a1, a2, a3, a4, a5, a6, a7));
      break;
    case 9:
      rec::put(wrapped ? um2::gmsh::model::occ::addCone(a0, a1, a2, a3, a4, a5, a6, a7, a8) : ::gmsh::model::occ::addCone(a0, a1, a2, a3, a4, a5, a6, a7, a8));
      break;
    case 10:
      rec::put(wrapped ? um2::gmsh::model::occ::addCone(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9) : ::gmsh::model::occ::addCone(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9));
      break;
    }
  });
}
void
call240(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<double>(s, c);
  auto a1 = gen<double>(s, c);
  auto a2 = gen<double>(s, c);
  auto a3 = gen<double>(s, c);
  auto a4 = gen<double>(s, c);
  auto a5 = gen<double>(s, c);
  auto a6 = gen<int>(s, c);
  auto a7 = gen<double>(s, c);
  auto a8 = gen<std::vector<double>>(s, c);
  int const k = 9 - s.irange(0, 3);
  compare(s, c, "model::occ::addWedge", k, [&](bool const wrapped) {
    switch (k) {
    case 6:
      rec::put(wrapped ? um2::gmsh::model::occ::addWedge(a0, a1, a2, a3, a4, a5) : ::gmsh::model::occ::addWedge(a0, a1, a2, a3, a4, a5));
      break;
    case 7:
      rec::put(wrapped ? um2::gmsh::model::occ::addWedge(a0, a1, a2, a3, a4, a5, a6) : ::gmsh::model::occ::addWedge(a0, a1, a2, a3, a4, a5, a6));
      break;
    case 8:
      rec::put(wrapped ? um2::gmsh::model::occ::addWedge(a0, a1, a2, a3, a4, a5, a6, a7) : ::gmsh::model::occ::addWedge(a0, a1, a2, a3, a4, a5, a6, a7));
      break;
    case 9:
      rec::put(wrapped ? um2::gmsh::model::occ::addWedge(a0, a1, a2, a3, a4, a5, a6, a7, a8) : ::gmsh::model::occ::addWedge(a0, a1, a2, a3, a4, a5, a6, a7, a8));
      break;
    }
  });
}
void
call241(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<double>(s, c);
  auto a1 = gen<double>(s, c);
  auto a2 = gen<double>(s, c);
  auto a3 = gen<double>(s, c);
  auto a4 = gen<double>(s, c);
  auto a5 = gen<int>(s, c);
  auto a6 = gen<double>(s, c);
  auto a7 = gen<std::vector<double>>(s, c);
  int const k = 8 - s.irange(0, 3);
  compare(s, c, "model::occ::addTorus", k, [&](bool const wrapped) {
    switch (k) {
    case 5:
      rec::put(wrapped ? um2::gmsh::model::occ::addTorus(a0, a1, a2, a3, a4) : ::gmsh::model::occ::addTorus(a0, a1, a2, a3, a4));
      break;
    case 6:
      rec::put(wrapped ? um2::gmsh::model::occ::addTorus(a0, a1, a2, a3, a4, a5) : ::gmsh::model::occ::addTorus(a0, a1, a2, a3, a4, a5));
      break;
    case 7:
      rec::put(wrapped ? um2::gmsh::model::occ::addTorus(a0, a1, a2, a3, a4, a5, a6) : ::gmsh::model::occ::addTorus(a0, a1, a2, a3, a4, a5, a6));
      break;
    case 8:
      rec::put(wrapped ? um2::gmsh::model::occ::addTorus(a0, a1, a2, a3, a4, a5, a6, a7) : ::gmsh::model::occ::addTorus(a0, a1, a2, a3, a4, a5, a6, a7));
      break;
    }
  });
}
void
call242(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<int>(s, c);
  auto a1 = gen<std::vector<int>>(s, c);
  auto a2 = gen<double>(s, c);
  Pairs a3{};
  auto a4 = gen<int>(s, c);
  int const k = 5 - s.irange(0, 1);
  compare(s, c, "model::occ::addThickSolid", k, [&](bool const wrapped) {
    a3 = {};
    switch (k) {
    case 4:
      wrapped ? um2::gmsh::model::occ::addThickSolid(a0, a1, a2, a3) : ::gmsh::model::occ::addThickSolid(a0, a1, a2, a3);
      break;
    case 5:
      wrapped ? um2::gmsh::model::occ::addThickSolid(a0, a1, a2, a3, a4) : ::gmsh::model::occ::addThickSolid(a0, a1, a2, a3, a4);
      break;
    }
    rec::put(a3);
  });
}
void
call243(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<Pairs>(s, c);
  auto a1 = gen<double>(s, c);
  auto a2 = gen<double>(s, c);
  auto a3 = gen<double>(s, c);
  Pairs a4{};
  auto a5 = gen<std::vector<int>>(s, c);
  auto a6 = gen<std::vector<double>>(s, c);
  auto a7 = gen<bool>(s, c);
  int const k = 8 - s.irange(0, 3);
  compare(s, c, "model::occ::extrude", k, [&](bool const wrapped) {
    a4 = {};
    switch (k) {
    case 5:
      wrapped ? um2::gmsh::model::occ::extrude(a0, a1, a2, a3, a4) : ::gmsh::model::occ::extrude(a0, a1, a2, a3, a4);
      break;
    case 6:
      wrapped ? um2::gmsh::model::occ::extrude(a0, a1, a2, a3, a4, a5) : ::gmsh::model::occ::extrude(a0, a1, a2, a3, a4, a5);
      break;
    case 7:
      wrapped ? um2::gmsh::model::occ::extrude(a0, a1, a2, a3, a4, a5, a6) : ::gmsh::model::occ::extrude(a0, a1, a2, a3, a4, a5, a6);
      break;
    case 8:
      wrapped ? um2::gmsh::model::occ::extrude(a0, a1, a2, a3, a4, a5, a6, a7) : ::gmsh::model::occ::extrude(a0, a1, a2, a3, a4, a5, a6, a7);
      break;
    }
    rec::put(a4);
  });
}
void
call244(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<Pairs>(s, c);
  auto a1 = gen<double>(s, c);
  auto a2 = gen<double>(s, c);
  auto a3 = gen<double>(s, c);
  auto a4 = gen<double>(s, c);
  auto a5 = gen<double>(s, c);
  auto a6 = gen<double>(s, c);
  auto a7 = gen<double>(s, c);
  Pairs a8{};
  auto a9 = gen<std::vector<int>>(s, c);
  auto a10 = gen<std::vector<double>>(s, c);
  auto a11 = gen<bool>(s, c);
  int const k = 12 - s.irange(0, 3);
  compare(s, c, "model::occ::revolve", k, [&](bool const wrapped) {
    a8 = {};
    switch (k) {
    case 9:
      wrapped ? um2::gmsh::model::occ::revolve(a0, a1, a2, a3, a4, a5, a6, a7, a8) : ::gmsh::model::occ::revolve(a0, a1, a2, a3, a4, a5, a6, a7, a8);
      break;
    case 10:
      wrapped ? um2::gmsh::model::occ::revolve(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9) : ::gmsh::model::occ::revolve(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9);
      break;
    case 11:
      wrapped ? um2::gmsh::model::occ::revolve(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10) : ::gmsh::model::occ::revolve(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10);
      break;
    case 12:
      wrapped ? um2::gmsh::model::occ::revolve(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11) : ::gmsh::model::occ::revolve(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11);
      break;
    }
    rec::put(a8);
  });
}
void
call245(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<Pairs>(s, c);
  auto a1 = gen<int>(s, c);
  Pairs a2{};
  auto a3 = gen<std::string>(s, c);
  int const k = 4 - s.irange(0, 1);
  compare(s, c, "model::occ::addPipe", k, [&](bool const wrapped) {
    a2 = {};
    switch (k) {
    case 3:
      wrapped ? um2::gmsh::model::occ::addPipe(a0, a1, a2) : ::gmsh::model::occ::addPipe(a0, a1, a2);
      break;
    case 4:
      wrapped ? um2::gmsh::model::occ::addPipe(a0, a1, a2, a3) : ::gmsh::model::occ::addPipe(a0, a1, a2, a3);
      break;
    }
    rec::put(a2);
  });
}
void
call246(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<std::vector<int>>(s, c);
  auto a1 = gen<std::vector<int>>(s, c);
  auto a2 = gen<std::vector<double>>(s, c);
  Pairs a3{};
  auto a4 = gen<bool>(s, c);
  int const k = 5 - s.irange(0, 1);
  compare(s, c, "model::occ::fillet", k, [&](bool const wrapped) {
    a3 = {};
    switch (k) {
    case 4:
      wrapped ? um2::gmsh::model::occ::fillet(a0, a1, a2, a3) : ::gmsh::model::occ::fillet(a0, a1, a2, a3);
      break;
    case 5:
      wrapped ? um2::gmsh::model::occ::fillet(a0, a1, a2, a3, a4) : ::gmsh::model::occ::fillet(a0, a1, a2, a3, a4);
      break;
    }
    rec::put(a3);
  });
}
void
call247(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<std::vector<int>>(s, c);
  auto a1 = gen<std::vector<int>>(s, c);
  auto a2 = gen<std::vector<int>>(s, c);
  auto a3 = gen<std::vector<double>>(s, c);
  Pairs a4{};
  auto a5 = gen<bool>(s, c);
  int const k = 6 - s.irange(0, 1);
  compare(s, c, "model::occ::chamfer", k, [&](bool const wrapped) {
    a4 = {};
    switch (k) {
    case 5:
      wrapped ? um2::gmsh::model::occ::chamfer(a0, a1, a2, a3, a4) : ::gmsh::model::occ::chamfer(a0, a1, a2, a3, a4);
      break;
    case 6:
      wrapped ? um2::gmsh::model::occ::chamfer(a0, a1, a2, a3, a4, a5) : ::gmsh::model::occ::chamfer(a0, a1, a2, a3, a4, a5);
      break;
    }
    rec::put(a4);
  });
}
void
call248(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<Pairs>(s, c);
  auto a1 = gen<Pairs>(s, c);
  Pairs a2{};
  std::vector<Pairs> a3{};
  auto a4 = gen<int>(s, c);
  auto a5 = gen<bool>(s, c);
  auto a6 = gen<bool>(s, c);
  int const k = 7 - s.irange(0, 3);
  compare(s, c, "model::occ::fuse", k, [&](bool const wrapped) {
    a2 = {};
    a3 = {};
    switch (k) {
    case 4:
      wrapped ? um2::gmsh::model::occ::fuse(a0, a1, a2, a3) : ::gmsh::model::occ::fuse(a0, a1, a2, a3);
      break;
    case 5:
      wrapped ? um2::gmsh::model::occ::fuse(a0, a1, a2, a3, a4) : ::gmsh::model::occ::fuse(a0, a1, a2, a3, a4);
      break;
    case 6:
      wrapped ? um2::gmsh::model::occ::fuse(a0, a1, a2, a3, a4, a5) : ::gmsh::model::occ::fuse(a0, a1, a2, a3, a4, a5);
      break;
    case 7:
      wrapped ? um2::gmsh::model::occ::fuse(a0, a1, a2, a3, a4, a5, a6) : ::gmsh::model::occ::fuse(a0, a1, a2, a3, a4, a5, a6);
      break;
    }
    rec::put(a2);
    rec::put(a3);
  });
}
void
call249(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<Pairs>(s, c);
  auto a1 = gen<Pairs>(s, c);
  Pairs a2{};
  std::vector<Pairs> a3{};
  auto a4 = gen<int>(s, c);
  auto a5 = gen<bool>(s, c);
  auto a6 = gen<bool>(s, c);
  int const k = 7 - s.irange(0, 3);
  compare(s, c, "model::occ::intersect", k, [&](bool const wrapped) {
    a2 = {};
    a3 = {};
    switch (k) {
    case 4:
      wrapped ? um2::gmsh::model::occ::intersect(a0, a1, a2, a3) : ::gmsh::model::occ::intersect(a0, a1, a2, a3);
      break;
    case 5:
      wrapped ? um2::gmsh::model::occ::intersect(a0, a1, a2, a3, a4) : ::gmsh::model::occ::intersect(a0, a1, a2, a3, a4);
      break;
    case 6:
      wrapped ? um2::gmsh::model::occ::intersect(a0, a1, a2, a3, a4, a5) : ::gmsh::model::occ::intersect(a0, a1, a2, a3, a4, a5);
      break;
    case 7:
      wrapped ? um2::gmsh::model::occ::intersect(a0, a1, a2, a3, a4, a5, a6) : ::gmsh::model::occ::intersect(a0, a1, a2, a3, a4, a5, a6);
      break;
    }
    rec::put(a2);
    rec::put(a3);
  });
}
void
call250(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<Pairs>(s, c);
  auto a1 = gen<Pairs>(s, c);
  Pairs a2{};
  std::vector<Pairs> a3{};
  auto a4 = gen<int>(s, c);
  auto a5 = gen<bool>(s, c);
  auto a6 = gen<bool>(s, c);
  int const k = 7 - s.irange(0, 3);
  compare(s, c, "model::occ::cut", k, [&](bool const wrapped) {
    a2 = {};
    a3 = {};
    switch (k) {
    case 4:
      wrapped ? um2::gmsh::model::occ::cut(a0, a1, a2, a3) : ::gmsh::model::occ::cut(a0, a1, a2, a3);
      break;
    case 5:
      wrapped ? um2::gmsh::model::occ::cut(a0, a1, a2, a3, a4) : ::gmsh::model::occ::cut(a0, a1, a2, a3, a4);
      break;
    case 6:
      wrapped ? um2::gmsh::model::occ::cut(a0, a1, a2, a3, a4, a5) : ::gmsh::model::occ::cut(a0, a1, a2, a3, a4, a5);
      break;
    case 7:
      wrapped ? um2::gmsh::model::occ::cut(a0, a1, a2, a3, a4, a5, a6) : ::gmsh::model::occ::cut(a0, a1, a2, a3, a4, a5, a6);
      break;
    }
    rec::put(a2);
    rec::put(a3);
  });
}
void
call251(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<Pairs>(s, c);
  auto a1 = gen<Pairs>(s, c);
  Pairs a2{};
  std::vector<Pairs> a3{};
  auto a4 = gen<int>(s, c);
  auto a5 = gen<bool>(s, c);
  auto a6 = gen<bool>(s, c);
  int const k = 7 - s.irange(0, 3);
  compare(s, c, "model::occ::fragment", k, [&](bool const wrapped) {
    a2 = {};
    a3 = {};
    switch (k) {
    case 4:
      wrapped ? um2::gmsh::model::occ::fragment(a0, a1, a2, a3) : ::gmsh::model::occ::fragment(a0, a1, a2, a3);
      break;
    case 5:
      wrapped ? um2::gmsh::model::occ::fragment(a0, a1, a2, a3, a4) : ::gmsh::model::occ::fragment(a0, a1, a2, a3, a4);
      break;
    case 6:
      wrapped ? um2::gmsh::model::occ::fragment(a0, a1, a2, a3, a4, a5) : ::gmsh::model::occ::fragment(a0, a1, a2, a3, a4, a5);
      break;
    case 7:
      wrapped ? um2::gmsh::model::occ::fragment(a0, a1, a2, a3, a4, a5, a6) : ::gmsh::model::occ::fragment(a0, a1, a2, a3, a4, a5, a6);
      break;
    }
    rec::put(a2);
    rec::put(a3);
  });
}
void
call252(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<Pairs>(s, c);
  auto a1 = gen<double>(s, c);
  auto a2 = gen<double>(s, c);
  auto a3 = gen<double>(s, c);
  int const k = 4 - s.irange(0, 0);
  compare(s, c, "model::occ::translate", k, [&](bool const wrapped) {
    switch (k) {
    case 4:
      wrapped ? um2::gmsh::model::occ::translate(a0, a1, a2, a3) : ::gmsh::model::occ::translate(a0, a1, a2, a3);
      break;
    }
  });
}
void
call253(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<Pairs>(s, c);
  auto a1 = gen<double>(s, c);
  auto a2 = gen<double>(s, c);
  auto a3 = gen<double>(s, c);
  auto a4 = gen<double>(s, c);
  auto a5 = gen<double>(s, c);
  auto a6 = gen<double>(s, c);
  auto a7 = gen<double>(s, c);
  int const k = 8 - s.irange(0, 0);
  compare(s, c, "model::occ::rotate", k, [&](bool const wrapped) {
    switch (k) {
    case 8:
      wrapped ? um2::gmsh::model::occ::rotate(a0, a1, a2, a3, a4, a5, a6, a7) : ::gmsh::model::occ::rotate(a0, a1, a2, a3, a4, a5, a6, a7);
      break;
    }
  });
}
void
call254(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<Pairs>(s, c);
  auto a1 = gen<double>(s, c);
  auto a2 = gen<double>(s, c);
  auto a3 = gen<double>(s, c);
  auto a4 = gen<double>(s, c);
  auto a5 = gen<double>(s, c);
  auto a6 = gen<double>(s, c);
  int const k = 7 - s.irange(0, 0);
  compare(s, c, "model::occ::dilate", k, [&](bool const wrapped) {
    switch (k) {
    case 7:
      wrapped ? um2::gmsh::model::occ::dilate(a0, a1, a2, a3, a4, a5, a6) : ::gmsh::model::occ::dilate(a0, a1, a2, a3, a4, a5, a6);
      break;
    }
  });
}
void
call255(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<Pairs>(s, c);
  auto a1 = gen<double>(s, c);
  auto a2 = gen<double>(s, c);
  auto a3 = gen<double>(s, c);
  auto a4 = gen<double>(s, c);
  int const k = 5 - s.irange(0, 0);
  compare(s, c, "model::occ::mirror", k, [&](bool const wrapped) {
    switch (k) {
    case 5:
      wrapped ? um2::gmsh::model::occ::mirror(a0, a1, a2, a3, a4) : ::gmsh::model::occ::mirror(a0, a1, a2, a3, a4);
      break;
    }
  });
}
void
call256(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<Pairs>(s, c);
  auto a1 = gen<double>(s, c);
  auto a2 = gen<double>(s, c);
  auto a3 = gen<double>(s, c);
  auto a4 = gen<double>(s, c);
  int const k = 5 - s.irange(0, 0);
  compare(s, c, "model::occ::symmetrize", k, [&](bool const wrapped) {
    switch (k) {
    case 5:
      wrapped ? um2::gmsh::model::occ::symmetrize(a0, a1, a2, a3, a4) : ::gmsh::model::occ::symmetrize(a0, a1, a2, a3, a4);
      break;
    }
  });
}
void
call257(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<Pairs>(s, c);
  auto a1 = gen<std::vector<double>>(s, c);
  int const k = 2 - s.irange(0, 0);
  compare(s, c, "model::occ::affineTransform", k, [&](bool const wrapped) {
    switch (k) {
    case 2:
      wrapped ? um2::gmsh::model::occ::affineTransform(a0, a1) : ::gmsh::model::occ::affineTransform(a0, a1);
      break;
    }
  });
}
void
call258(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<Pairs>(s, c);
  Pairs a1{};
  int const k = 2 - s.irange(0, 0);
  compare(s, c, "model::occ::copy", k, [&](bool const wrapped) {
    a1 = {};
    switch (k) {
    case 2:
      wrapped ? um2::gmsh::model::occ::copy(a0, a1) : ::gmsh::model::occ::copy(a0, a1);
      break;
    }
    rec::put(a1);
  });
}
void
call259(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<Pairs>(s, c);
  auto a1 = gen<bool>(s, c);
  int const k = 2 - s.irange(0, 1);
  compare(s, c, "model::occ::remove", k, [&](bool const wrapped) {
    switch (k) {
    case 1:
      wrapped ? um2::gmsh::model::occ::remove(a0) : ::gmsh::model::occ::remove(a0);
      break;
    case 2:
      wrapped ? um2::gmsh::model::occ::remove(a0, a1) : ::gmsh::model::occ::remove(a0, a1);
      break;
    }
  });
}
void
call260(pbt::Src & s, pbt::Case & c)
{
  int const k = 0 - s.irange(0, 0);
  compare(s, c, "model::occ::removeAllDuplicates", k, [&](bool const wrapped) {
    switch (k) {
    case 0:
      wrapped ? um2::gmsh::model::occ::removeAllDuplicates() : ::gmsh::model::occ::removeAllDuplicates();
      break;
    }
  });
}
void
call261(pbt::Src & s, pbt::Case & c)
{
  Pairs a0{};
  auto a1 = gen<Pairs>(s, c);
  auto a2 = gen<double>(s, c);
  auto a3 = gen<bool>(s, c);
  auto a4 = gen<bool>(s, c);
  auto a5 = gen<bool>(s, c);
  auto a6 = gen<bool>(s, c);
  auto a7 = gen<bool>(s, c);
  int const k = 8 - s.irange(0, 7);
  compare(s, c, "model::occ::healShapes", k, [&](bool const wrapped) {
    a0 = {};
    switch (k) {
    case 1:
      wrapped ? um2::gmsh::model::occ::healShapes(a0) : ::gmsh::model::occ::healShapes(a0);
      break;
    case 2:
      wrapped ? um2::gmsh::model::occ::healShapes(a0, a1) : ::gmsh::model::occ::healShapes(a0, a1);
      break;
    case 3:
      wrapped ? um2::gmsh::model::occ::healShapes(a0, a1, a2) : ::gmsh::model::occ::healShapes(a0, a1, a2);
      break;
    case 4:
      wrapped ? um2::gmsh::model::occ::healShapes(a0, a1, a2, a3) : ::gmsh::model::occ::healShapes(a0, a1, a2, a3);
      break;
    case 5:
      wrapped ? um2::gmsh::model::occ::healShapes(a0, a1, a2, a3, a4) : ::gmsh::model::occ::healShapes(a0, a1, a2, a3, a4);
      break;
    case 6:
      wrapped ? um2::gmsh::model::occ::healShapes(a0, a1, a2, a3, a4, a5) : ::gmsh::model::occ::healShapes(a0, a1, a2, a3, a4, a5);
      break;
    case 7:
      wrapped ? um2::gmsh::model::occ::healShapes(a0, a1, a2, a3, a4, a5, a6) : ::gmsh::model::occ::healShapes(a0, a1, a2, a3, a4, a5, a6);
      break;
    case 8:
      wrapped ? um2::gmsh::model::occ::healShapes(a0, a1, a2, a3, a4, a5, a6, a7) : ::gmsh::model::occ::healShapes(a0, a1, a2, a3, a4, a5, a6, a7);
      break;
    }
    rec::put(a0);
  });
}
void
call262(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<Pairs>(s, c);
  int const k = 1 - s.irange(0, 0);
  compare(s, c, "model::occ::convertToNURBS", k, [&](bool const wrapped) {
    switch (k) {
    case 1:
      wrapped ? um2::gmsh::model::occ::convertToNURBS(a0) : ::gmsh::model::occ::convertToNURBS(a0);
      break;
    }
  });
}
void
call263(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<std::string>(s, c);
  Pairs a1{};
  auto a2 = gen<bool>(s, c);
  auto a3 = gen<std::string>(s, c);
  int const k = 4 - s.irange(0, 2);
  compare(s, c, "model::occ::importShapes", k, [&](bool const wrapped) {
    a1 = {};
    switch (k) {
    case 2:
      wrapped ? um2::gmsh::model::occ::importShapes(a0, a1) : ::gmsh::model::occ::importShapes(a0, a1);
      break;
    case 3:
      wrapped ? um2::gmsh::model::occ::importShapes(a0, a1, a2) : ::gmsh::model::occ::importShapes(a0, a1, a2);
      break;
    case 4:
      wrapped ? um2::gmsh::model::occ::importShapes(a0, a1, a2, a3) : ::gmsh::model::occ::importShapes(a0, a1, a2, a3);
      break;
    }
    rec::put(a1);
  });
}
void
call264(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<void *>(s, c);
  Pairs a1{};
  auto a2 = gen<bool>(s, c);
  int const k = 3 - s.irange(0, 1);
  compare(s, c, "model::occ::importShapesNativePointer", k, [&](bool const wrapped) {
    a1 = {};
    switch (k) {
    case 2:
      wrapped ? um2::gmsh::model::occ::importShapesNativePointer(a0, a1) : ::gmsh::model::occ::importShapesNativePointer(a0, a1);
      break;
    case 3:
      wrapped ? um2::gmsh::model::occ::importShapesNativePointer(a0, a1, a2) : ::gmsh::model::occ::importShapesNativePointer(a0, a1, a2);
      break;
    }
    rec::put(a1);
  });
}
void
call265(pbt::Src & s, pbt::Case & c)
{
  Pairs a0{};
  auto a1 = gen<int>(s, c);
  int const k = 2 - s.irange(0, 1);
  compare(s, c, "model::occ::getEntities", k, [&](bool const wrapped) {
    a0 = {};
    switch (k) {
    case 1:
      wrapped ? um2::gmsh::model::occ::getEntities(a0) : ::gmsh::model::occ::getEntities(a0);
      break;
    case 2:
      wrapped ? um2::gmsh::model::occ::getEntities(a0, a1) : ::gmsh::model::occ::getEntities(a0, a1);
      break;
    }
    rec::put(a0);
  });
}
void
call266(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<double>(s, c);
  auto a1 = gen<double>(s, c);
  auto a2 = gen<double>(s, c);
  auto a3 = gen<double>(s, c);
  auto a4 = gen<double>(s, c);
  auto a5 = gen<double>(s, c);
  Pairs a6{};
  auto a7 = gen<int>(s, c);
  int const k = 8 - s.irange(0, 1);
  compare(s, c, "model::occ::getEntitiesInBoundingBox", k, [&](bool const wrapped) {
    a6 = {};
    switch (k) {
    case 7:
      wrapped ? um2::gmsh::model::occ::getEntitiesInBoundingBox(a0, a1, a2, a3, a4, a5, a6) : ::gmsh::model::occ::getEntitiesInBoundingBox(a0, a1, a2, a3, a4, a5, a6);
      break;
    case 8:
      wrapped ? um2::gmsh::model::occ::getEntitiesInBoundingBox(a0, a1, a2, a3, a4, a5, a6, a7) : ::gmsh::model::occ::getEntitiesInBoundingBox(a0, a1, a2, a3, a4, a5, a6, a7);
      break;
    }
    rec::put(a6);
  });
}
void
call267(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<int>(s, c);
  auto a1 = gen<int>(s, c);
  double a2{};
  double a3{};
  double a4{};
  double a5{};
  double a6{};
  double a7{};
  int const k = 8 - s.irange(0, 0);
  compare(s, c, "model::occ::getBoundingBox", k, [&](bool const wrapped) {
    a2 = {};
    a3 = {};
    a4 = {};
    a5 = {};
    a6 = {};
    a7 = {};
    switch (k) {
    case 8:
      wrapped ? um2::gmsh::model::occ::getBoundingBox(a0, a1, a2, a3, a4, a5, a6, a7) : ::gmsh::model::occ::getBoundingBox(a0, a1, a2, a3, a4, a5, a6, a7);
      break;
    }
    rec::put(a2);
    rec::put(a3);
    rec::put(a4);
    rec::put(a5);
    rec::put(a6);
    rec::put(a7);
  });
}
void
call268(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<int>(s, c);
  std::vector<int> a1{};
  std::vector<std::vector<int>> a2{};
  int const k = 3 - s.irange(0, 0);
  compare(s, c, "model::occ::getCurveLoops", k, [&](bool const wrapped) {
    a1 = {};
    a2 = {};
    switch (k) {
    case 3:
      wrapped ? um2::gmsh::model::occ::getCurveLoops(a0, a1, a2) : ::gmsh::model::occ::getCurveLoops(a0, a1, a2);
      break;
    }
    rec::put(a1);
    rec::put(a2);
  });
}
void
call269(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<int>(s, c);
  std::vector<int> a1{};
  std::vector<std::vector<int>> a2{};
  int const k = 3 - s.irange(0, 0);
  compare(s, c, "model::occ::getSurfaceLoops", k, [&](bool const wrapped) {
    a1 = {};
    a2 = {};
    switch (k) {
    case 3:
      wrapped ? um2::gmsh::model::occ::getSurfaceLoops(a0, a1, a2) : ::gmsh::model::occ::getSurfaceLoops(a0, a1, a2);
      break;
    }
    rec::put(a1);
    rec::put(a2);
  });
}
void
call270(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<int>(s, c);
  auto a1 = gen<int>(s, c);
  double a2{};
  int const k = 3 - s.irange(0, 0);
  compare(s, c, "model::occ::getMass", k, [&](bool const wrapped) {
    a2 = {};
    switch (k) {
    case 3:
      wrapped ? um2::gmsh::model::occ::getMass(a0, a1, a2) : ::gmsh::model::occ::getMass(a0, a1, a2);
      break;
    }
    rec::put(a2);
  });
}
void
call271(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<int>(s, c);
  auto a1 = gen<int>(s, c);
  double a2{};
  double a3{};
  double a4{};
  int const k = 5 - s.irange(0, 0);
  compare(s, c, "model::occ::getCenterOfMass", k, [&](bool const wrapped) {
    a2 = {};
    a3 = {};
    a4 = {};
    switch (k) {
    case 5:
      wrapped ? um2::gmsh::model::occ::getCenterOfMass(a0, a1, a2, a3, a4) : ::gmsh::model::occ::getCenterOfMass(a0, a1, a2, a3, a4);
      break;
    }
    rec::put(a2);
    rec::put(a3);
    rec::put(a4);
  });
}
void
call272(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<int>(s, c);
  auto a1 = gen<int>(s, c);
  std::vector<double> a2{};
  int const k = 3 - s.irange(0, 0);
  compare(s, c, "model::occ::getMatrixOfInertia", k, [&](bool const wrapped) {
    a2 = {};
    switch (k) {
    case 3:
      wrapped ? um2::gmsh::model::occ::getMatrixOfInertia(a0, a1, a2) : ::gmsh::model::occ::getMatrixOfInertia(a0, a1, a2);
      break;
    }
    rec::put(a2);
  });
}
void
call273(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<int>(s, c);
  int const k = 1 - s.irange(0, 0);
  compare(s, c, "model::occ::getMaxTag", k, [&](bool const wrapped) {
    switch (k) {
    case 1:
      rec::put(wrapped ? um2::gmsh::model::occ::getMaxTag(a0) : ::gmsh::model::occ::getMaxTag(a0));
      break;
    }
  });
}
void
call274(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<int>(s, c);
  auto a1 = gen<int>(s, c);
  int const k = 2 - s.irange(0, 0);
  compare(s, c, "model::occ::setMaxTag", k, [&](bool const wrapped) {
    switch (k) {
    case 2:
      wrapped ? um2::gmsh::model::occ::setMaxTag(a0, a1) : ::gmsh::model::occ::setMaxTag(a0, a1);
      break;
    }
  });
}
void
call275(pbt::Src & s, pbt::Case & c)
{
  int const k = 0 - s.irange(0, 0);
  compare(s, c, "model::occ::synchronize", k, [&](bool const wrapped) {
    switch (k) {
    case 0:
      wrapped ? um2::gmsh::model::occ::synchronize() : ::gmsh::model::occ::synchronize();
      break;
    }
  });
}
void
call276(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<Pairs>(s, c);
  auto a1 = gen<double>(s, c);
  int const k = 2 - s.irange(0, 0);
  compare(s, c, "model::occ::mesh::setSize", k, [&](bool const wrapped) {
    switch (k) {
    case 2:
      wrapped ? um2::gmsh::model::occ::mesh::setSize(a0, a1) : ::gmsh::model::occ::mesh::setSize(a0, a1);
      break;
    }
  });
}
void
call277(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<std::string>(s, c);
  auto a1 = gen<int>(s, c);
  int const k = 2 - s.irange(0, 1);
  compare(s, c, "view::add", k, [&](bool const wrapped) {
    switch (k) {
    case 1:
      rec::put(wrapped ? um2::gmsh::view::add(a0) : ::gmsh::view::add(a0));
      break;
    case 2:
      rec::put(wrapped ? um2::gmsh::view::add(a0, a1) : ::gmsh::view::add(a0, a1));
      break;
    }
  });
}
void
call278(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<int>(s, c);
  int const k = 1 - s.irange(0, 0);
  compare(s, c, "view::remove", k, [&](bool const wrapped) {
    switch (k) {
    case 1:
      wrapped ? um2::gmsh::view::remove(a0) : ::gmsh::view::remove(a0);
      break;
    }
  });
}
void
call279(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<int>(s, c);
  int const k = 1 - s.irange(0, 0);
  compare(s, c, "view::getIndex", k, [&](bool const wrapped) {
    switch (k) {
    case 1:
      rec::put(wrapped ? um2::gmsh::view::getIndex(a0) : ::gmsh::view::getIndex(a0));
      break;
    }
  });
}
void
call280(pbt::Src & s, pbt::Case & c)
{
  std::vector<int> a0{};
  int const k = 1 - s.irange(0, 0);
  compare(s, c, "view::getTags", k, [&](bool const wrapped) {
    a0 = {};
    switch (k) {
    case 1:
      wrapped ? um2::gmsh::view::getTags(a0) : ::gmsh::view::getTags(a0);
      break;
    }
    rec::put(a0);
  });
}
void
call281(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<int>(s, c);
  auto a1 = gen<int>(s, c);
  auto a2 = gen<std::string>(s, c);
  auto a3 = gen<std::string>(s, c);
  auto a4 = gen<std::vector<std::size_t>>(s, c);
  auto a5 = gen<std::vector<std::vector<double>>>(s, c);
  auto a6 = gen<double>(s, c);
  auto a7 = gen<int>(s, c);
  auto a8 = gen<int>(s, c);
  int const k = 9 - s.irange(0, 3);
  compare(s, c, "view::addModelData", k, [&](bool const wrapped) {
    switch (k) {
    case 6:
      wrapped ? um2::gmsh::view::addModelData(a0, a1, a2, a3, a4, a5) : ::gmsh::view::addModelData(a0, a1, a2, a3, a4, a5);
      break;
    case 7:
      wrapped ? um2::gmsh::view::addModelData(a0, a1, a2, a3, a4, a5, a6) : ::gmsh::view::addModelData(a0, a1, a2, a3, a4, a5, a6);
      break;
    case 8:
      wrapped ? um2::gmsh::view::addModelData(a0, a1, a2, a3, a4, a5, a6, a7) : ::gmsh::view::addModelData(a0, a1, a2, a3, a4, a5, a6, a7);
      break;
    case 9:
      wrapped ? um2::gmsh::view::addModelData(a0, a1, a2, a3, a4, a5, a6, a7, a8) : ::gmsh::view::addModelData(a0, a1, a2, a3, a4, a5, a6, a7, a8);
      break;
    }
  });
}
void
call282(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<int>(s, c);
  auto a1 = gen<int>(s, c);
  auto a2 = gen<std::string>(s, c);
  auto a3 = gen<std::string>(s, c);
  auto a4 = gen<std::vector<std::size_t>>(s, c);
  auto a5 = gen<std::vector<double>>(s, c);
  auto a6 = gen<double>(s, c);
  auto a7 = gen<int>(s, c);
  auto a8 = gen<int>(s, c);
  int const k = 9 - s.irange(0, 3);
  compare(s, c, "view::addHomogeneousModelData", k, [&](bool const wrapped) {
    switch (k) {
    case 6:
      wrapped ? um2::gmsh::view::addHomogeneousModelData(a0, a1, a2, a3, a4, a5) : ::gmsh::view::addHomogeneousModelData(a0, a1, a2, a3, a4, a5);
      break;
    case 7:
      wrapped ? um2::gmsh::view::addHomogeneousModelData(a0, a1, a2, a3, a4, a5, a6) : ::gmsh::view::addHomogeneousModelData(a0, a1, a2, a3, a4, a5, a6);
      break;
    case 8:
      wrapped ? um2::gmsh::view::addHomogeneousModelData(a0, a1, a2, a3, a4, a5, a6, a7) : ::gmsh::view::addHomogeneousModelData(a0, a1, a2, a3, a4, a5, a6, a7);
      break;
    case 9:
      wrapped ? um2::gmsh::view::addHomogeneousModelData(a0, a1, a2, a3, a4, a5, a6, a7, a8) : ::gmsh::view::addHomogeneousModelData(a0, a1, a2, a3, a4, a5, a6, a7, a8);
      break;
    }
  });
}
void
call283(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<int>(s, c);
  auto a1 = gen<int>(s, c);
  std::string a2{};
  std::vector<std::size_t> a3{};
  std::vector<std::vector<double>> a4{};
  double a5{};
  int a6{};
  int const k = 7 - s.irange(0, 0);
  compare(s, c, "view::getModelData", k, [&](bool const wrapped) {
    a2 = {};
    a3 = {};
    a4 = {};
    a5 = {};
    a6 = {};
    switch (k) {
    case 7:
      wrapped ? um2::gmsh::view::getModelData(a0, a1, a2, a3, a4, a5, a6) : ::gmsh::view::getModelData(a0, a1, a2, a3, a4, a5, a6);
      break;
    }
    rec::put(a2);
    rec::put(a3);
    rec::put(a4);
    rec::put(a5);
    rec::put(a6);
  });
}
void
call284(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<int>(s, c);
  auto a1 = gen<int>(s, c);
  std::string a2{};
  std::vector<std::size_t> a3{};
  std::vector<double> a4{};
  double a5{};
  int a6{};
  int const k = 7 - s.irange(0, 0);
  compare(s, c, "view::getHomogeneousModelData", k, [&](bool const wrapped) {
    a2 = {};
    a3 = {};
    a4 = {};
    a5 = {};
    a6 = {};
    switch (k) {
    case 7:
      wrapped ? um2::gmsh::view::getHomogeneousModelData(a0, a1, a2, a3, a4, a5, a6) : ::gmsh::view::getHomogeneousModelData(a0, a1, a2, a3, a4, a5, a6);
      break;
    }
    rec::put(a2);
    rec::put(a3);
    rec::put(a4);
    rec::put(a5);
    rec::put(a6);
  });
}
void
call285(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<int>(s, c);
  auto a1 = gen<std::string>(s, c);
  auto a2 = gen<int>(s, c);
  auto a3 = gen<std::vector<double>>(s, c);
  int const k = 4 - s.irange(0, 0);
  compare(s, c, "view::addListData", k, [&](bool const wrapped) {
    switch (k) {
    case 4:
      wrapped ? um2::gmsh::view::addListData(a0, a1, a2, a3) : ::gmsh::view::addListData(a0, a1, a2, a3);
      break;
    }
  });
}
void
call286(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<int>(s, c);
  std::vector<std::string> a1{};
  std::vector<int> a2{};
  std::vector<std::vector<double>> a3{};
  int const k = 4 - s.irange(0, 0);
  compare(s, c, "view::getListData", k, [&](bool const wrapped) {
    a1 = {};
    a2 = {};
    a3 = {};
    switch (k) {
    case 4:
      wrapped ? um2::gmsh::view::getListData(a0, a1, a2, a3) : ::gmsh::view::getListData(a0, a1, a2, a3);
      break;
    }
    rec::put(a1);
    rec::put(a2);
    rec::put(a3);
  });
}
void
call287(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<int>(s, c);
  auto a1 = gen<std::vector<double>>(s, c);
  auto a2 = gen<std::vector<std::string>>(s, c);
  auto a3 = gen<std::vector<std::string>>(s, c);
  int const k = 4 - s.irange(0, 1);
  compare(s, c, "view::addListDataString", k, [&](bool const wrapped) {
    switch (k) {
    case 3:
      wrapped ? um2::gmsh::view::addListDataString(a0, a1, a2) : ::gmsh::view::addListDataString(a0, a1, a2);
      break;
    case 4:
      wrapped ? um2::gmsh::view::addListDataString(a0, a1, a2, a3) : ::gmsh::view::addListDataString(a0, a1, a2, a3);
      break;
    }
  });
}
void
call288(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<int>(s, c);
  auto a1 = gen<int>(s, c);
  std::vector<double> a2{};
  std::vector<std::string> a3{};
  std::vector<std::string> a4{};
  int const k = 5 - s.irange(0, 0);
  compare(s, c, "view::getListDataStrings", k, [&](bool const wrapped) {
    a2 = {};
    a3 = {};
    a4 = {};
    switch (k) {
    case 5:
      wrapped ? um2::gmsh::view::getListDataStrings(a0, a1, a2, a3, a4) : ::gmsh::view::getListDataStrings(a0, a1, a2, a3, a4);
      break;
    }
    rec::put(a2);
    rec::put(a3);
    rec::put(a4);
  });
}
void
call289(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<int>(s, c);
  auto a1 = gen<std::string>(s, c);
  auto a2 = gen<int>(s, c);
  auto a3 = gen<std::vector<double>>(s, c);
  auto a4 = gen<std::vector<double>>(s, c);
  auto a5 = gen<int>(s, c);
  auto a6 = gen<std::vector<double>>(s, c);
  auto a7 = gen<std::vector<double>>(s, c);
  int const k = 8 - s.irange(0, 3);
  compare(s, c, "view::setInterpolationMatrices", k, [&](bool const wrapped) {
    switch (k) {
    case 5:
      wrapped ? um2::gmsh::view::setInterpolationMatrices(a0, a1, a2, a3, a4) : ::gmsh::view::setInterpolationMatrices(a0, a1, a2, a3, a4);
      break;
    case 6:
      wrapped ? um2::gmsh::view::setInterpolationMatrices(a0, a1, a2, a3, a4, a5) : ::gmsh::view::setInterpolationMatrices(a0, a1, a2, a3, a4, a5);
      break;
    case 7:
      wrapped ? um2::gmsh::view::setInterpolationMatrices(a0, a1, a2, a3, a4, a5, a6) : ::gmsh::view::setInterpolationMatrices(a0, a1, a2, a3, a4, a5, a6);
      break;
    case 8:
      wrapped ? um2::gmsh::view::setInterpolationMatrices(a0, a1, a2, a3, a4, a5, a6, a7) : ::gmsh::view::setInterpolationMatrices(a0, a1, a2, a3, a4, a5, a6, a7);
      break;
    }
  });
}
void
call290(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<int>(s, c);
  auto a1 = gen<bool>(s, c);
  auto a2 = gen<int>(s, c);
  int const k = 3 - s.irange(0, 2);
  compare(s, c, "view::addAlias", k, [&](bool const wrapped) {
    switch (k) {
    case 1:
      rec::put(wrapped ? um2::gmsh::view::addAlias(a0) : ::gmsh::view::addAlias(a0));
      break;
    case 2:
      rec::put(wrapped ? um2::gmsh::view::addAlias(a0, a1) : ::gmsh::view::addAlias(a0, a1));
      break;
    case 3:
      rec::put(wrapped ? um2::gmsh::view::addAlias(a0, a1, a2) : ::gmsh::view::addAlias(a0, a1, a2));
      break;
    }
  });
}
void
call291(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<std::string>(s, c);
  auto a1 = gen<std::string>(s, c);
  auto a2 = gen<bool>(s, c);
  auto a3 = gen<bool>(s, c);
  int const k = 4 - s.irange(0, 2);
  compare(s, c, "view::combine", k, [&](bool const wrapped) {
    switch (k) {
    case 2:
      wrapped ? um2::gmsh::view::combine(a0, a1) : ::gmsh::view::combine(a0, a1);
      break;
    case 3:
      wrapped ? um2::gmsh::view::combine(a0, a1, a2) : ::gmsh::view::combine(a0, a1, a2);
      break;
    case 4:
      wrapped ? um2::gmsh::view::combine(a0, a1, a2, a3) : ::gmsh::view::combine(a0, a1, a2, a3);
      break;
    }
  });
}
void
call292(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<int>(s, c);
  auto a1 = gen<double>(s, c);
  auto a2 = gen<double>(s, c);
  auto a3 = gen<double>(s, c);
  std::vector<double> a4{};
  double a5{};
  auto a6 = gen<int>(s, c);
  auto a7 = gen<int>(s, c);
  auto a8 = gen<bool>(s, c);
  auto a9 = gen<double>(s, c);
  auto a10 = gen<std::vector<double>>(s, c);
  auto a11 = gen<std::vector<double>>(s, c);
  auto a12 = gen<std::vector<double>>(s, c);
  auto a13 = gen<int>(s, c);
  int const k = 14 - s.irange(0, 8);
  compare(s, c, "view::probe", k, [&](bool const wrapped) {
    a4 = {};
    a5 = {};
    switch (k) {
    case 6:
      wrapped ? um2::gmsh::view::probe(a0, a1, a2, a3, a4, a5) : ::gmsh::view::probe(a0, a1, a2, a3, a4, a5);
      break;
    case 7:
      wrapped ? um2::gmsh::view::probe(a0, a1, a2, a3, a4, a5, a6) : ::gmsh::view::probe(a0, a1, a2, a3, a4, a5, a6);
      break;
    case 8:
      wrapped ? um2::gmsh::view::probe(a0, a1, a2, a3, a4, a5, a6, a7) : ::gmsh::view::probe(a0, a1, a2, a3, a4, a5, a6, a7);
      break;
    case 9:
      wrapped ? um2::gmsh::view::probe(a0, a1, a2, a3, a4, a5, a6, a7, a8) : ::gmsh::view::probe(a0, a1, a2, a3, a4, a5, a6, a7, a8);
      break;
    case 10:
      wrapped ? um2::gmsh::view::probe(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9) : ::gmsh::view::probe(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9);
      break;
    case 11:
      wrapped ? um2::gmsh::view::probe(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10) : ::gmsh::view::probe(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10);
      break;
    case 12:
      wrapped ? um2::gmsh::view::probe(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11) : ::gmsh::view::probe(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11);
      break;
    case 13:
      wrapped ? um2::gmsh::view::probe(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12) : ::gmsh::view::probe(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12);
      break;
    case 14:
      wrapped ? um2::gmsh::view::probe(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13) : ::gmsh::view::probe(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13);
      break;
    }
    rec::put(a4);
    rec::put(a5);
  });
}
void
call293(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<int>(s, c);
  auto a1 = gen<std::string>(s, c);
  auto a2 = gen<bool>(s, c);
  int const k = 3 - s.irange(0, 1);
  compare(s, c, "view::write", k, [&](bool const wrapped) {
    switch (k) {
    case 2:
      wrapped ? um2::gmsh::view::write(a0, a1) : ::gmsh::view::write(a0, a1);
      break;
    case 3:
      wrapped ? um2::gmsh::view::write(a0, a1, a2) : ::gmsh::view::write(a0, a1, a2);
      break;
    }
  });
}
void
call294(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<int>(s, c);
  auto a1 = gen<int>(s, c);
  auto a2 = gen<int>(s, c);
  int const k = 3 - s.irange(0, 1);
  compare(s, c, "view::setVisibilityPerWindow", k, [&](bool const wrapped) {
    switch (k) {
    case 2:
      wrapped ? um2::gmsh::view::setVisibilityPerWindow(a0, a1) : ::gmsh::view::setVisibilityPerWindow(a0, a1);
      break;
    case 3:
      wrapped ? um2::gmsh::view::setVisibilityPerWindow(a0, a1, a2) : ::gmsh::view::setVisibilityPerWindow(a0, a1, a2);
      break;
    }
  });
}
void
call295(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<int>(s, c);
  auto a1 = gen<std::string>(s, c);
  auto a2 = gen<double>(s, c);
  int const k = 3 - s.irange(0, 0);
  compare(s, c, "view::option::setNumber", k, [&](bool const wrapped) {
    switch (k) {
    case 3:
      wrapped ? um2::gmsh::view::option::setNumber(a0, a1, a2) : ::gmsh::view::option::setNumber(a0, a1, a2);
      break;
    }
  });
}
void
call296(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<int>(s, c);
  auto a1 = gen<std::string>(s, c);
  double a2{};
  int const k = 3 - s.irange(0, 0);
  compare(s, c, "view::option::getNumber", k, [&](bool const wrapped) {
    a2 = {};
    switch (k) {
    case 3:
      wrapped ? um2::gmsh::view::option::getNumber(a0, a1, a2) : ::gmsh::view::option::getNumber(a0, a1, a2);
      break;
    }
    rec::put(a2);
  });
}
void
call297(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<int>(s, c);
  auto a1 = gen<std::string>(s, c);
  auto a2 = gen<std::string>(s, c);
  int const k = 3 - s.irange(0, 0);
  compare(s, c, "view::option::setString", k, [&](bool const wrapped) {
    switch (k) {
    case 3:
      wrapped ? um2::gmsh::view::option::setString(a0, a1, a2) : ::gmsh::view::option::setString(a0, a1, a2);
      break;
    }
  });
}
void
call298(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<int>(s, c);
  auto a1 = gen<std::string>(s, c);
  std::string a2{};
  int const k = 3 - s.irange(0, 0);
  compare(s, c, "view::option::getString", k, [&](bool const wrapped) {
    a2 = {};
    switch (k) {
    case 3:
      wrapped ? um2::gmsh::view::option::getString(a0, a1, a2) : ::gmsh::view::option::getString(a0, a1, a2);
      break;
    }
    rec::put(a2);
  });
}
void
call299(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<int>(s, c);
  auto a1 = gen<std::string>(s, c);
  auto a2 = gen<int>(s, c);
  auto a3 = gen<int>(s, c);
  auto a4 = gen<int>(s, c);
  auto a5 = gen<int>(s, c);
  int const k = 6 - s.irange(0, 1);
  compare(s, c, "view::option::setColor", k, [&](bool const wrapped) {
    switch (k) {
    case 5:
      wrapped ? um2::gmsh::view::option::setColor(a0, a1, a2, a3, a4) : ::gmsh::view::option::setColor(a0, a1, a2, a3, a4);
      break;
    case 6:
      wrapped ? um2::gmsh::view::option::setColor(a0, a1, a2, a3, a4, a5) : ::gmsh::view::option::setColor(a0, a1, a2, a3, a4, a5);
      break;
    }
  });
}
void
call300(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<int>(s, c);
  auto a1 = gen<std::string>(s, c);
  int a2{};
  int a3{};
  int a4{};
  int a5{};
  int const k = 6 - s.irange(0, 0);
  compare(s, c, "view::option::getColor", k, [&](bool const wrapped) {
    a2 = {};
    a3 = {};
    a4 = {};
    a5 = {};
    switch (k) {
    case 6:
      wrapped ? um2::gmsh::view::option::getColor(a0, a1, a2, a3, a4, a5) : ::gmsh::view::option::getColor(a0, a1, a2, a3, a4, a5);
      break;
    }
    rec::put(a2);
    rec::put(a3);
    rec::put(a4);
    rec::put(a5);
  });
}
void
call301(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<int>(s, c);
  auto a1 = gen<int>(s, c);
  int const k = 2 - s.irange(0, 0);
  compare(s, c, "view::option::copy", k, [&](bool const wrapped) {
    switch (k) {
    case 2:
      wrapped ? um2::gmsh::view::option::copy(a0, a1) : ::gmsh::view::option::copy(a0, a1);
      break;
    }
  });
}
void
call302(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<std::string>(s, c);
  auto a1 = gen<std::string>(s, c);
  auto a2 = gen<double>(s, c);
  int const k = 3 - s.irange(0, 0);
  compare(s, c, "plugin::setNumber", k, [&](bool const wrapped) {
    switch (k) {
    case 3:
      wrapped ? um2::gmsh::plugin::setNumber(a0, a1, a2) : ::gmsh::plugin::setNumber(a0, a1, a2);
      break;
    }
  });
}
void
call303(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<std::string>(s, c);
  auto a1 = gen<std::string>(s, c);
  auto a2 = gen<std::string>(s, c);
  int const k = 3 - s.irange(0, 0);
  compare(s, c, "plugin::setString", k, [&](bool const wrapped) {
    switch (k) {
    case 3:
      wrapped ? um2::gmsh::plugin::setString(a0, a1, a2) : ::gmsh::plugin::setString(a0, a1, a2);
      break;
    }
  });
}
void
call304(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<std::string>(s, c);
  int const k = 1 - s.irange(0, 0);
  compare(s, c, "plugin::run", k, [&](bool const wrapped) {
    switch (k) {
    case 1:
      rec::put(wrapped ? um2::gmsh::plugin::run(a0) : ::gmsh::plugin::run(a0));
      break;
    }
  });
}
void
call305(pbt::Src & s, pbt::Case & c)
{
  int const k = 0 - s.irange(0, 0);
  compare(s, c, "graphics::draw", k, [&](bool const wrapped) {
    switch (k) {
    case 0:
      wrapped ? um2::gmsh::graphics::draw() : ::gmsh::graphics::draw();
      break;
    }
  });
}
void
call306(pbt::Src & s, pbt::Case & c)
{
  int const k = 0 - s.irange(0, 0);
  compare(s, c, "fltk::initialize", k, [&](bool const wrapped) {
    switch (k) {
    case 0:
      wrapped ? um2::gmsh::fltk::initialize() : ::gmsh::fltk::initialize();
      break;
    }
  });
}
void
call307(pbt::Src & s, pbt::Case & c)
{
  int const k = 0 - s.irange(0, 0);
  compare(s, c, "fltk::finalize", k, [&](bool const wrapped) {
    switch (k) {
    case 0:
      wrapped ? um2::gmsh::fltk::finalize() : ::gmsh::fltk::finalize();
      break;
    }
  });
}
void
call308(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<double>(s, c);
  int const k = 1 - s.irange(0, 1);
  compare(s, c, "fltk::wait", k, [&](bool const wrapped) {
    switch (k) {
    case 0:
      wrapped ? um2::gmsh::fltk::wait() : ::gmsh::fltk::wait();
      break;
    case 1:
      wrapped ? um2::gmsh::fltk::wait(a0) : ::gmsh::fltk::wait(a0);
      break;
    }
  });
}
void
call309(pbt::Src & s, pbt::Case & c)
{
  int const k = 0 - s.irange(0, 0);
  compare(s, c, "fltk::update", k, [&](bool const wrapped) {
    switch (k) {
    case 0:
      wrapped ? um2::gmsh::fltk::update() : ::gmsh::fltk::update();
      break;
    }
  });
}
void
call310(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<std::string>(s, c);
  int const k = 1 - s.irange(0, 1);
  compare(s, c, "fltk::awake", k, [&](bool const wrapped) {
    switch (k) {
    case 0:
      wrapped ? um2::gmsh::fltk::awake() : ::gmsh::fltk::awake();
      break;
    case 1:
      wrapped ? um2::gmsh::fltk::awake(a0) : ::gmsh::fltk::awake(a0);
      break;
    }
  });
}
void
call311(pbt::Src & s, pbt::Case & c)
{
  int const k = 0 - s.irange(0, 0);
  compare(s, c, "fltk::lock", k, [&](bool const wrapped) {
    switch (k) {
    case 0:
      wrapped ? um2::gmsh::fltk::lock() : ::gmsh::fltk::lock();
      break;
    }
  });
}
void
call312(pbt::Src & s, pbt::Case & c)
{
  int const k = 0 - s.irange(0, 0);
  compare(s, c, "fltk::unlock", k, [&](bool const wrapped) {
    switch (k) {
    case 0:
      wrapped ? um2::gmsh::fltk::unlock() : ::gmsh::fltk::unlock();
      break;
    }
  });
}
void
call313(pbt::Src & s, pbt::Case & c)
{
  int const k = 0 - s.irange(0, 0);
  compare(s, c, "fltk::run", k, [&](bool const wrapped) {
    switch (k) {
    case 0:
      wrapped ? um2::gmsh::fltk::run() : ::gmsh::fltk::run();
      break;
    }
  });
}
void
call314(pbt::Src & s, pbt::Case & c)
{
  int const k = 0 - s.irange(0, 0);
  compare(s, c, "fltk::isAvailable", k, [&](bool const wrapped) {
    switch (k) {
    case 0:
      rec::put(wrapped ? um2::gmsh::fltk::isAvailable() : ::gmsh::fltk::isAvailable());
      break;
    }
  });
}
void
call315(pbt::Src & s, pbt::Case & c)
{
  Pairs a0{};
  auto a1 = gen<int>(s, c);
  int const k = 2 - s.irange(0, 1);
  compare(s, c, "fltk::selectEntities", k, [&](bool const wrapped) {
    a0 = {};
    switch (k) {
    case 1:
      rec::put(wrapped ? um2::gmsh::fltk::selectEntities(a0) : ::gmsh::fltk::selectEntities(a0));
      break;
    case 2:
      rec::put(wrapped ? um2::gmsh::fltk::selectEntities(a0, a1) : ::gmsh::fltk::selectEntities(a0, a1));
      break;
    }
    rec::put(a0);
  });
}
void
call316(pbt::Src & s, pbt::Case & c)
{
  std::vector<std::size_t> a0{};
  int const k = 1 - s.irange(0, 0);
  compare(s, c, "fltk::selectElements", k, [&](bool const wrapped) {
    a0 = {};
    switch (k) {
    case 1:
      rec::put(wrapped ? um2::gmsh::fltk::selectElements(a0) : ::gmsh::fltk::selectElements(a0));
      break;
    }
    rec::put(a0);
  });
}
void
call317(pbt::Src & s, pbt::Case & c)
{
  std::vector<int> a0{};
  int const k = 1 - s.irange(0, 0);
  compare(s, c, "fltk::selectViews", k, [&](bool const wrapped) {
    a0 = {};
    switch (k) {
    case 1:
      rec::put(wrapped ? um2::gmsh::fltk::selectViews(a0) : ::gmsh::fltk::selectViews(a0));
      break;
    }
    rec::put(a0);
  });
}
void
call318(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<std::string>(s, c);
  auto a1 = gen<double>(s, c);
  int const k = 2 - s.irange(0, 2);
  compare(s, c, "fltk::splitCurrentWindow", k, [&](bool const wrapped) {
    switch (k) {
    case 0:
      wrapped ? um2::gmsh::fltk::splitCurrentWindow() : ::gmsh::fltk::splitCurrentWindow();
      break;
    case 1:
      wrapped ? um2::gmsh::fltk::splitCurrentWindow(a0) : ::gmsh::fltk::splitCurrentWindow(a0);
      break;
    case 2:
      wrapped ? um2::gmsh::fltk::splitCurrentWindow(a0, a1) : ::gmsh::fltk::splitCurrentWindow(a0, a1);
      break;
    }
  });
}
void
call319(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<int>(s, c);
  int const k = 1 - s.irange(0, 1);
  compare(s, c, "fltk::setCurrentWindow", k, [&](bool const wrapped) {
    switch (k) {
    case 0:
      wrapped ? um2::gmsh::fltk::setCurrentWindow() : ::gmsh::fltk::setCurrentWindow();
      break;
    case 1:
      wrapped ? um2::gmsh::fltk::setCurrentWindow(a0) : ::gmsh::fltk::setCurrentWindow(a0);
      break;
    }
  });
}
void
call320(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<std::string>(s, c);
  auto a1 = gen<bool>(s, c);
  int const k = 2 - s.irange(0, 1);
  compare(s, c, "fltk::setStatusMessage", k, [&](bool const wrapped) {
    switch (k) {
    case 1:
      wrapped ? um2::gmsh::fltk::setStatusMessage(a0) : ::gmsh::fltk::setStatusMessage(a0);
      break;
    case 2:
      wrapped ? um2::gmsh::fltk::setStatusMessage(a0, a1) : ::gmsh::fltk::setStatusMessage(a0, a1);
      break;
    }
  });
}
void
call321(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<int>(s, c);
  auto a1 = gen<int>(s, c);
  int const k = 2 - s.irange(0, 0);
  compare(s, c, "fltk::showContextWindow", k, [&](bool const wrapped) {
    switch (k) {
    case 2:
      wrapped ? um2::gmsh::fltk::showContextWindow(a0, a1) : ::gmsh::fltk::showContextWindow(a0, a1);
      break;
    }
  });
}
void
call322(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<std::string>(s, c);
  int const k = 1 - s.irange(0, 0);
  compare(s, c, "fltk::openTreeItem", k, [&](bool const wrapped) {
    switch (k) {
    case 1:
      wrapped ? um2::gmsh::fltk::openTreeItem(a0) : ::gmsh::fltk::openTreeItem(a0);
      break;
    }
  });
}
void
call323(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<std::string>(s, c);
  int const k = 1 - s.irange(0, 0);
  compare(s, c, "fltk::closeTreeItem", k, [&](bool const wrapped) {
    switch (k) {
    case 1:
      wrapped ? um2::gmsh::fltk::closeTreeItem(a0) : ::gmsh::fltk::closeTreeItem(a0);
      break;
    }
  });
}
void
call324(pbt::Src & s, pbt::Case & c)
{
  std::vector<std::string> a0{};
  auto a1 = gen<std::string>(s, c);
  int const k = 2 - s.irange(0, 1);
  compare(s, c, "parser::getNames", k, [&](bool const wrapped) {
    a0 = {};
    switch (k) {
    case 1:
      wrapped ? um2::gmsh::parser::getNames(a0) : ::gmsh::parser::getNames(a0);
      break;
    case 2:
      wrapped ? um2::gmsh::parser::getNames(a0, a1) : ::gmsh::parser::getNames(a0, a1);
      break;
    }
    rec::put(a0);
  });
}
void
call325(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<std::string>(s, c);
  auto a1 = gen<std::vector<double>>(s, c);
  int const k = 2 - s.irange(0, 0);
  compare(s, c, "parser::setNumber", k, [&](bool const wrapped) {
    switch (k) {
    case 2:
      wrapped ? um2::gmsh::parser::setNumber(a0, a1) : ::gmsh::parser::setNumber(a0, a1);
      break;
    }
  });
}
void
call326(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<std::string>(s, c);
  auto a1 = gen<std::vector<std::string>>(s, c);
  int const k = 2 - s.irange(0, 0);
  compare(s, c, "parser::setString", k, [&](bool const wrapped) {
    switch (k) {
    case 2:
      wrapped ? um2::gmsh::parser::setString(a0, a1) : ::gmsh::parser::setString(a0, a1);
      break;
    }
  });
}
void
call327(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<std::string>(s, c);
  std::vector<double> a1{};
  int const k = 2 - s.irange(0, 0);
  compare(s, c, "parser::getNumber", k, [&](bool const wrapped) {
    a1 = {};
    switch (k) {
    case 2:
      wrapped ? um2::gmsh::parser::getNumber(a0, a1) : ::gmsh::parser::getNumber(a0, a1);
      break;
    }
    rec::put(a1);
  });
}
void
call328(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<std::string>(s, c);
  std::vector<std::string> a1{};
  int const k = 2 - s.irange(0, 0);
  compare(s, c, "parser::getString", k, [&](bool const wrapped) {
    a1 = {};
    switch (k) {
    case 2:
      wrapped ? um2::gmsh::parser::getString(a0, a1) : ::gmsh::parser::getString(a0, a1);
      break;
    }
    rec::put(a1);
  });
}
void
call329(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<std::string>(s, c);
  int const k = 1 - s.irange(0, 1);
  compare(s, c, "parser::clear", k, [&](bool const wrapped) {
    switch (k) {
    case 0:
      wrapped ? um2::gmsh::parser::clear() : ::gmsh::parser::clear();
      break;
    case 1:
      wrapped ? um2::gmsh::parser::clear(a0) : ::gmsh::parser::clear(a0);
      break;
    }
  });
}
void
call330(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<std::string>(s, c);
  int const k = 1 - s.irange(0, 0);
  compare(s, c, "parser::parse", k, [&](bool const wrapped) {
    switch (k) {
    case 1:
      wrapped ? um2::gmsh::parser::parse(a0) : ::gmsh::parser::parse(a0);
      break;
    }
  });
}
void
call331(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<std::string>(s, c);
  auto a1 = gen<std::string>(s, c);
  int const k = 2 - s.irange(0, 1);
  compare(s, c, "onelab::set", k, [&](bool const wrapped) {
    switch (k) {
    case 1:
      wrapped ? um2::gmsh::onelab::set(a0) : ::gmsh::onelab::set(a0);
      break;
    case 2:
      wrapped ? um2::gmsh::onelab::set(a0, a1) : ::gmsh::onelab::set(a0, a1);
      break;
    }
  });
}
void
call332(pbt::Src & s, pbt::Case & c)
{
  std::string a0{};
  auto a1 = gen<std::string>(s, c);
  auto a2 = gen<std::string>(s, c);
  int const k = 3 - s.irange(0, 2);
  compare(s, c, "onelab::get", k, [&](bool const wrapped) {
    a0 = {};
    switch (k) {
    case 1:
      wrapped ? um2::gmsh::onelab::get(a0) : ::gmsh::onelab::get(a0);
      break;
    case 2:
      wrapped ? um2::gmsh::onelab::get(a0, a1) : ::gmsh::onelab::get(a0, a1);
      break;
    case 3:
      wrapped ? um2::gmsh::onelab::get(a0, a1, a2) : ::gmsh::onelab::get(a0, a1, a2);
      break;
    }
    rec::put(a0);
  });
}
void
call333(pbt::Src & s, pbt::Case & c)
{
  std::vector<std::string> a0{};
  auto a1 = gen<std::string>(s, c);
  int const k = 2 - s.irange(0, 1);
  compare(s, c, "onelab::getNames", k, [&](bool const wrapped) {
    a0 = {};
    switch (k) {
    case 1:
      wrapped ? um2::gmsh::onelab::getNames(a0) : ::gmsh::onelab::getNames(a0);
      break;
    case 2:
      wrapped ? um2::gmsh::onelab::getNames(a0, a1) : ::gmsh::onelab::getNames(a0, a1);
      break;
    }
    rec::put(a0);
  });
}
void
call334(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<std::string>(s, c);
  auto a1 = gen<std::vector<double>>(s, c);
  int const k = 2 - s.irange(0, 0);
  compare(s, c, "onelab::setNumber", k, [&](bool const wrapped) {
    switch (k) {
    case 2:
      wrapped ? um2::gmsh::onelab::setNumber(a0, a1) : ::gmsh::onelab::setNumber(a0, a1);
      break;
    }
  });
}
void
call335(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<std::string>(s, c);
  auto a1 = gen<std::vector<std::string>>(s, c);
  int const k = 2 - s.irange(0, 0);
  compare(s, c, "onelab::setString", k, [&](bool const wrapped) {
    switch (k) {
    case 2:
      wrapped ? um2::gmsh::onelab::setString(a0, a1) : ::gmsh::onelab::setString(a0, a1);
      break;
    }
  });
}
void
call336(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<std::string>(s, c);
  std::vector<double> a1{};
  int const k = 2 - s.irange(0, 0);
  compare(s, c, "onelab::getNumber", k, [&](bool const wrapped) {
    a1 = {};
    switch (k) {
    case 2:
      wrapped ? um2::gmsh::onelab::getNumber(a0, a1) : ::gmsh::onelab::getNumber(a0, a1);
      break;
    }
    rec::put(a1);
  });
}
void
call337(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<std::string>(s, c);
  std::vector<std::string> a1{};
  int const k = 2 - s.irange(0, 0);
  compare(s, c, "onelab::getString", k, [&](bool const wrapped) {
    a1 = {};
    switch (k) {
    case 2:
      wrapped ? um2::gmsh::onelab::getString(a0, a1) : ::gmsh::onelab::getString(a0, a1);
      break;
    }
    rec::put(a1);
  });
}
void
call338(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<std::string>(s, c);
  int const k = 1 - s.irange(0, 0);
  compare(s, c, "onelab::getChanged", k, [&](bool const wrapped) {
    switch (k) {
    case 1:
      rec::put(wrapped ? um2::gmsh::onelab::getChanged(a0) : ::gmsh::onelab::getChanged(a0));
      break;
    }
  });
}
void
call339(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<std::string>(s, c);
  auto a1 = gen<int>(s, c);
  int const k = 2 - s.irange(0, 0);
  compare(s, c, "onelab::setChanged", k, [&](bool const wrapped) {
    switch (k) {
    case 2:
      wrapped ? um2::gmsh::onelab::setChanged(a0, a1) : ::gmsh::onelab::setChanged(a0, a1);
      break;
    }
  });
}
void
call340(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<std::string>(s, c);
  int const k = 1 - s.irange(0, 1);
  compare(s, c, "onelab::clear", k, [&](bool const wrapped) {
    switch (k) {
    case 0:
      wrapped ? um2::gmsh::onelab::clear() : ::gmsh::onelab::clear();
      break;
    case 1:
      wrapped ? um2::gmsh::onelab::clear(a0) : ::gmsh::onelab::clear(a0);
      break;
    }
  });
}
void
call341(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<std::string>(s, c);
  auto a1 = gen<std::string>(s, c);
  int const k = 2 - s.irange(0, 2);
  compare(s, c, "onelab::run", k, [&](bool const wrapped) {
    switch (k) {
    case 0:
      wrapped ? um2::gmsh::onelab::run() : ::gmsh::onelab::run();
      break;
    case 1:
      wrapped ? um2::gmsh::onelab::run(a0) : ::gmsh::onelab::run(a0);
      break;
    case 2:
      wrapped ? um2::gmsh::onelab::run(a0, a1) : ::gmsh::onelab::run(a0, a1);
      break;
    }
  });
}
void
call342(pbt::Src & s, pbt::Case & c)
{
  auto a0 = gen<std::string>(s, c);
  auto a1 = gen<std::string>(s, c);
  int const k = 2 - s.irange(0, 1);
  compare(s, c, "logger::write", k, [&](bool const wrapped) {
    switch (k) {
    case 1:
      wrapped ? um2::gmsh::logger::write(a0) : ::gmsh::logger::write(a0);
      break;
    case 2:
      wrapped ? um2::gmsh::logger::write(a0, a1) : ::gmsh::logger::write(a0, a1);
      break;
    }
  });
}
void
call343(pbt::Src & s, pbt::Case & c)
{
  int const k = 0 - s.irange(0, 0);
  compare(s, c, "logger::start", k, [&](bool const wrapped) {
    switch (k) {
    case 0:
      wrapped ? um2::gmsh::logger::start() : ::gmsh::logger::start();
      break;
    }
  });
}
void
call344(pbt::Src & s, pbt::Case & c)
{
  std::vector<std::string> a0{};
  int const k = 1 - s.irange(0, 0);
  compare(s, c, "logger::get", k, [&](bool const wrapped) {
    a0 = {};
    switch (k) {
    case 1:
      wrapped ? um2::gmsh::logger::get(a0) : ::gmsh::logger::get(a0);
      break;
    }
    rec::put(a0);
  });
}
void
call345(pbt::Src & s, pbt::Case & c)
{
  int const k = 0 - s.irange(0, 0);
  compare(s, c, "logger::stop", k, [&](bool const wrapped) {
    switch (k) {
    case 0:
      wrapped ? um2::gmsh::logger::stop() : ::gmsh::logger::stop();
      break;
    }
  });
}
void
call346(pbt::Src & s, pbt::Case & c)
{
  int const k = 0 - s.irange(0, 0);
  compare(s, c, "logger::getWallTime", k, [&](bool const wrapped) {
    switch (k) {
    case 0:
      rec::put(wrapped ? um2::gmsh::logger::getWallTime() : ::gmsh::logger::getWallTime());
      break;
    }
  });
}
void
call347(pbt::Src & s, pbt::Case & c)
{
  int const k = 0 - s.irange(0, 0);
  compare(s, c, "logger::getCpuTime", k, [&](bool const wrapped) {
    switch (k) {
    case 0:
      rec::put(wrapped ? um2::gmsh::logger::getCpuTime() : ::gmsh::logger::getCpuTime());
      break;
    }
  });
}
void
call348(pbt::Src & s, pbt::Case & c)
{
  std::string a0{};
  int const k = 1 - s.irange(0, 0);
  compare(s, c, "logger::getLastError", k, [&](bool const wrapped) {
    a0 = {};
    switch (k) {
    case 1:
      wrapped ? um2::gmsh::logger::getLastError(a0) : ::gmsh::logger::getLastError(a0);
      break;
    }
    rec::put(a0);
  });
}
using Call = void (*)(pbt::Src &, pbt::Case &);
Call const CALLS[] = {call0, call1, call2, call3, call4, call5, call6, call7, call8, call9, call10, call11, call12, call13, call14, call15, call16, call17, call18, call19, call20, call21, call22, call23, call24, call25, call26, call27, call28, call29, call30, call31, call32, call33, call34, call35, call36, call37, call38, call39, call40, call41, call42, call43, call44, call45, call46, call47, call48, call49, call50, call51, call52, call53, call54, call55, call56, call57, call58, call59, call60, call61, call62, call63, call64, call65, call66, call67, call68, call69, call70, call71, call72, call73, call74, call75, call76, call77, call78, call79, call80, call81, call82, call83, call84, call85, call86, call87, call88, call89, call90, call91, call92, call93, call94, call95, call96, call97, call98, call99, call100, call101, call102, call103, call104, call105, call106, call107, call108, call109, call110, call111, call112, call113, call114, call115, call116, call117, call118, call119, call120, call121, call122, call123, call124, call125, call126, call127, call128, call129, call130, call131, call132, call133, call134, call135, call136, call137, call138, call139, call140, call141, call142, call143, call144, call145, call146, call147, call148, call149, call150, call151, call152, call153, call154, call155, call156, call157, call158, call159, call160, call161, call162, call163, call164, call165, call166, call167, call168, call169, call170, call171, call172, call173, call174, call175, call176, call177, call178, call179, call180, call181, call182, call183, call184, call185, call186, call187, call188, call189, call190, call191, call192, call193, call194, call195, call196, call197, call198, call199, call200, call201, call202, call203, call204, call205, call206, call207, call208, call209, call210, call211, call212, call213, call214, call215, call216, call217, call218, call219, call220, call221, call222, call223, call224, call225, call226, call227, call228, call229, call230, call231, call232, call233, call234, call235, call236, call237, call238, call239, call240, call241, call242, call243, call244, call245, call246, call247, call248, call249, call250, call251, call252, call253, call254, call255, call256, call257, call258, call259, call260, call261, call262, call263, call264, call265, call266, call267, call268, call269, call270, call271, call272, call273, call274, call275, call276, call277, call278, call279, call280, call281, call282, call283, call284, call285, call286, call287, call288, call289, call290, call291, call292, call293, call294, call295, call296, call297, call298, call299, call300, call301, call302, call303, call304, call305, call306, call307, call308, call309, call310, call311, call312, call313, call314, call315, call316, call317, call318, call319, call320, call321, call322, call323, call324, call325, call326, call327, call328, call329, call330, call331, call332, call333, call334, call335, call336, call337, call338, call339, call340, call341, call342, call343, call344, call345, call346, call347, call348};
}
